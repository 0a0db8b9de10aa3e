From be458d1f0d630aa7c72d0f5e157bc076cb17637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 01/86] fix: report a particle list as empty once all its
 particles are removed

is_empty() looked at the number of used slots instead of the number of
particles. After removing a particle that is not the last one, the slot stays
behind as a hole, so a list whose size() is 0 could claim not to be empty.
---
 src/include/smash/particles.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/particles.h b/src/include/smash/particles.h
index 9271058..fc1fdb0 100644
--- a/src/include/smash/particles.h
+++ b/src/include/smash/particles.h
@@ -87,7 +87,7 @@ class Particles {
   size_t size() const { return data_size_ - dirty_.size(); }
 
   /// \return whether the list of particles is empty.
-  bool is_empty() const { return data_size_ == 0; }
+  bool is_empty() const { return size() == 0; }
 
   /**
    *  Returns the time of the computational frame.
-- 
2.43.0


From df70be679970c2799cac187d943d5cf509427fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:34 +0000
Subject: [PATCH 02/86] fix: use the projectile mass when converting two
 kinetic energies to s

s_from_Ekin for two beams added the target mass to the kinetic energy of the
projectile, which is wrong whenever the two masses differ.
---
 src/include/smash/kinematics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/kinematics.h b/src/include/smash/kinematics.h
index 363caf9..0c36cd6 100644
--- a/src/include/smash/kinematics.h
+++ b/src/include/smash/kinematics.h
@@ -251,7 +251,7 @@ inline double s_from_Ekin(double e_kin, double m_P, double m_T) {
  */
 inline double s_from_Ekin(double e_kin_p, double e_kin_t, double m_p,
                           double m_t) {
-  return s_from_Etot(e_kin_p + m_t, e_kin_t + m_t, m_p, m_t);
+  return s_from_Etot(e_kin_p + m_p, e_kin_t + m_t, m_p, m_t);
 }
 /**
  * Convert p_lab to Mandelstam-s for a fixed-target setup,
-- 
2.43.0


From 1347b37f164e54b899349f7aac1830ecd458159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:34 +0000
Subject: [PATCH 03/86] fix: pass masses, not momenta, when converting two beam
 momenta to s

s_from_plab for two beams handed the momenta to s_from_Etot in place of the
masses.
---
 src/include/smash/kinematics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/kinematics.h b/src/include/smash/kinematics.h
index 0c36cd6..0a37617 100644
--- a/src/include/smash/kinematics.h
+++ b/src/include/smash/kinematics.h
@@ -278,7 +278,7 @@ inline double s_from_plab(double plab, double m_P, double m_T) {
 inline double s_from_plab(double plab_p, double plab_t, double m_p,
                           double m_t) {
   return s_from_Etot(std::sqrt(m_p * m_p + plab_p * plab_p),
-                     std::sqrt(m_t * m_t + plab_t * plab_t), plab_p, plab_t);
+                     std::sqrt(m_t * m_t + plab_t * plab_t), m_p, m_t);
 }
 
 }  // namespace smash
-- 
2.43.0


From 72901e4ca680af4338176c240d7ef03689d4e4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:34 +0000
Subject: [PATCH 04/86] fix: compute sqrt(s_NN) of two beams given by total
 energies from those energies

The total energies per nucleon were treated as kinetic energies.
---
 src/collidermodus.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collidermodus.cc b/src/collidermodus.cc
index d54d0b4..6e11e33 100644
--- a/src/collidermodus.cc
+++ b/src/collidermodus.cc
@@ -181,7 +181,7 @@ ColliderModus::ColliderModus(Configuration modus_config,
     total_s_ = s_from_Etot(e_tot_p * projectile_->number_of_particles(),
                            e_tot_t * target_->number_of_particles(),
                            mass_projec, mass_target);
-    sqrt_s_NN_ = std::sqrt(s_from_Ekin(e_tot_p, e_tot_t, mass_a, mass_b));
+    sqrt_s_NN_ = std::sqrt(s_from_Etot(e_tot_p, e_tot_t, mass_a, mass_b));
     energy_input++;
   }
   // Option 6: Kinetic energy per nucleon of _each_ beam
-- 
2.43.0


From 2b20947f66a572ed74534d09c45457d4b7a1908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:25 +0000
Subject: [PATCH 05/86] fix: give anti-bottom mesons a name and multiplet of
 their own

---
 src/particletype.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particletype.cc b/src/particletype.cc
index b00ed82..96b0362 100644
--- a/src/particletype.cc
+++ b/src/particletype.cc
@@ -163,9 +163,9 @@ static std::string antiname(const std::string &name, PdgCode code) {
     charge = "";
   }
 
-  // baryons & strange mesons: insert a bar
+  // baryons and strange, charmed or bottom mesons: insert a bar
   if (code.baryon_number() != 0 || code.strangeness() != 0 ||
-      code.charmness() != 0 || code.is_neutrino()) {
+      code.charmness() != 0 || code.bottomness() != 0 || code.is_neutrino()) {
     constexpr char bar[] = "\u0305";
     basename.insert(utf8::sequence_length(basename.begin()), bar);
   }
-- 
2.43.0


From 4cd87f457bfa5fb2a792762db62d618f9425fa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:25 +0000
Subject: [PATCH 06/86] fix: do not classify double-bottom baryons as nucleon
 resonances

---
 src/include/smash/particletype.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/include/smash/particletype.h b/src/include/smash/particletype.h
index b5ac4ab..4cdd17f 100644
--- a/src/include/smash/particletype.h
+++ b/src/include/smash/particletype.h
@@ -230,7 +230,8 @@ class ParticleType {
   /// \return Is this a nucleon resonance (N*)?
   inline bool is_Nstar() const {
     return is_baryon() && isospin() == 1 && !pdgcode_.is_nucleon() &&
-           pdgcode_.strangeness() == 0 && pdgcode_.charmness() == 0;
+           pdgcode_.strangeness() == 0 && pdgcode_.charmness() == 0 &&
+           pdgcode_.bottomness() == 0;
   }
 
   /// \copydoc PdgCode::is_Nstar1535
@@ -242,7 +243,8 @@ class ParticleType {
   /// \return Is this a Delta resonance (Delta*)?
   inline bool is_Deltastar() const {
     return is_baryon() && isospin() == 3 && !pdgcode_.is_Delta() &&
-           pdgcode_.strangeness() == 0 && pdgcode_.charmness() == 0;
+           pdgcode_.strangeness() == 0 && pdgcode_.charmness() == 0 &&
+           pdgcode_.bottomness() == 0;
   }
 
   /// \return whether the particle is stable
-- 
2.43.0


From 7f7f9cbde615396d8e40d2ee18270b335563111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:53 +0000
Subject: [PATCH 07/86] fix: use the third daughter's spin when validating
 three-body decays

---
 src/decaymodes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decaymodes.cc b/src/decaymodes.cc
index 61df77e..1499b01 100644
--- a/src/decaymodes.cc
+++ b/src/decaymodes.cc
@@ -340,7 +340,7 @@ void DecayModes::load_decaymodes(const std::string &input) {
                      isotype_daughter_3.parity();
             const int s1 = isotype_daughter_1.spin();
             const int s2 = isotype_daughter_2.spin();
-            const int s3 = isotype_daughter_2.spin();
+            const int s3 = isotype_daughter_3.spin();
             min_L = min_angular_momentum(s0, s1, s2, s3);
             max_L = (s0 + s1 + s2 + s3) / 2;
             // loop through multiplets
-- 
2.43.0


From e808abd2e6332a4f5495cfb3f82696a8d8e24d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:31 +0000
Subject: [PATCH 08/86] fix: do not refuse decays whose daughters' spins couple
 to less than their sum

---
 src/decaymodes.cc | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/decaymodes.cc b/src/decaymodes.cc
index 1499b01..1c1fcfb 100644
--- a/src/decaymodes.cc
+++ b/src/decaymodes.cc
@@ -135,29 +135,33 @@ inline std::size_t find_offset(PdgCode pdg) {
 }
 }  // unnamed namespace
 
-static int min_angular_momentum(int s0, int s1, int s2) {
-  int min_L = std::min(std::abs(s0 - s1 - s2), std::abs(s0 - s1 + s2));
-  min_L = std::min(min_L, std::abs(s0 + s1 - s2));
-  if (min_L % 2 != 0) {
+/**
+ * Smallest orbital angular momentum that couples a total spin between the given
+ * limits to the spin of the mother. All arguments are doubled spins.
+ *
+ * \param[in] s0 spin of the mother
+ * \param[in] s_min smallest total spin of the daughters
+ * \param[in] s_max largest total spin of the daughters
+ * \return the minimal angular momentum
+ * \throw runtime_error if the spins do not add up to an integer
+ */
+static int min_angular_momentum_from_range(int s0, int s_min, int s_max) {
+  if ((s0 + s_max) % 2 != 0) {
     throw std::runtime_error(
         "min_angular_momentum: sum of spins should be integer");
   }
-  return min_L / 2;
+  return std::max({s_min - s0, s0 - s_max, 0}) / 2;
+}
+
+static int min_angular_momentum(int s0, int s1, int s2) {
+  return min_angular_momentum_from_range(s0, std::abs(s1 - s2), s1 + s2);
 }
 
 static int min_angular_momentum(int s0, int s1, int s2, int s3) {
-  int min_L =
-      std::min(std::abs(s0 - s1 + s2 + s3), std::abs(s0 + s1 - s2 + s3));
-  min_L = std::min(min_L, std::abs(s0 + s1 + s2 - s3));
-  min_L = std::min(min_L, std::abs(s0 - s1 - s2 + s3));
-  min_L = std::min(min_L, std::abs(s0 - s1 + s2 - s3));
-  min_L = std::min(min_L, std::abs(s0 + s1 - s2 - s3));
-  min_L = std::min(min_L, std::abs(s0 - s1 - s2 - s3));
-  if (min_L % 2 != 0) {
-    throw std::runtime_error(
-        "min_angular_momentum: sum of spins should be integer");
-  }
-  return min_L / 2;
+  const int s_max = s1 + s2 + s3;
+  const int s_min =
+      std::max(2 * std::max({s1, s2, s3}) - s_max, s_max % 2 == 0 ? 0 : 1);
+  return min_angular_momentum_from_range(s0, s_min, s_max);
 }
 
 void DecayModes::load_decaymodes(const std::string &input) {
-- 
2.43.0


From 3d0d9e93c79184ec5d2995ca609190647d87f4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:38 +0000
Subject: [PATCH 09/86] fix: include <algorithm> for std::max over a list in
 decaymodes

---
 src/decaymodes.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decaymodes.cc b/src/decaymodes.cc
index 1c1fcfb..bf7832c 100644
--- a/src/decaymodes.cc
+++ b/src/decaymodes.cc
@@ -9,6 +9,7 @@
 
 #include "smash/decaymodes.h"
 
+#include <algorithm>
 #include <vector>
 
 #include "smash/clebschgordan.h"
-- 
2.43.0


From adad6f9f5664781384f57bc6a13b7cb2618e80f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:02 +0000
Subject: [PATCH 10/86] fix: decay Psi(3770) into D and anti-D in the box decay
 table

---
 input/box/decaymodes.txt | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/input/box/decaymodes.txt b/input/box/decaymodes.txt
index 3690338..3e16453 100644
--- a/input/box/decaymodes.txt
+++ b/input/box/decaymodes.txt
@@ -913,7 +913,8 @@ hc
 0.4 2 φ f₁(1285)
 
 Ψ(3770)
-0.93 1 D D
+0.52 1 D⁰ D̅⁰
+0.41 1 D⁺ D̅⁻
 0.07 1 J/Ψ ρ⁰
 
 ################## charm baryons ######################
-- 
2.43.0


From 7b95d5663b1be9ae2c7107e4000ab1e158d0d684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:02 +0000
Subject: [PATCH 11/86] fix: refuse isospin-multiplet decay modes that violate
 charge conservation

---
 src/decaymodes.cc | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/decaymodes.cc b/src/decaymodes.cc
index bf7832c..775a67f 100644
--- a/src/decaymodes.cc
+++ b/src/decaymodes.cc
@@ -165,6 +165,30 @@ static int min_angular_momentum(int s0, int s1, int s2, int s3) {
   return min_angular_momentum_from_range(s0, s_min, s_max);
 }
 
+/**
+ * Check that a decay mode generated from isospin multiplets conserves charge.
+ * This fails if the multiplets do not have the total hypercharge of the mother.
+ *
+ * \param[in] mother type of the decaying particle
+ * \param[in] daughters types of the decay products
+ * \param[in] text line of the decay modes file, for the error message
+ * \throw DecayModes::InvalidDecay if charge is not conserved
+ */
+static void ensure_charge_conservation(ParticleTypePtr mother,
+                                       const ParticleTypePtrList &daughters,
+                                       const std::string &text) {
+  int charge = 0;
+  for (const auto &daughter : daughters) {
+    charge += daughter->charge();
+  }
+  if (charge != mother->charge()) {
+    throw DecayModes::InvalidDecay(mother->name() +
+                                   " decay mode violates charge "
+                                   "conservation: \"" +
+                                   text + "\"");
+  }
+}
+
 void DecayModes::load_decaymodes(const std::string &input) {
   // create the DecayType vector first, then it outlives the DecayModes vector,
   // which references the DecayType objects.
@@ -310,6 +334,8 @@ void DecayModes::load_decaymodes(const std::string &input) {
                   const double cg_sqr = isospin_clebsch_gordan_sqr_2to1(
                       *daughter1, *daughter2, *mother_states[m]);
                   if (cg_sqr > 0.) {
+                    ensure_charge_conservation(
+                        mother_states[m], {daughter1, daughter2}, line.text);
                     // add mode
                     logg[LDecayModes].debug(
                         "decay mode generated: " + mother_states[m]->name() +
@@ -357,6 +383,9 @@ void DecayModes::load_decaymodes(const std::string &input) {
                     const double cg_sqr = isospin_clebsch_gordan_sqr_3to1(
                         *daughter1, *daughter2, *daughter3, *mother_states[m]);
                     if (cg_sqr > 0.) {
+                      ensure_charge_conservation(
+                          mother_states[m], {daughter1, daughter2, daughter3},
+                          line.text);
                       // add mode
                       logg[LDecayModes].debug(
                           "decay mode generated: " + mother_states[m]->name() +
-- 
2.43.0


From 63f694cce6ac83983a67ee250ea5f55c6bd5db61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:59 +0000
Subject: [PATCH 12/86] fix: refuse three-body decay modes that are forbidden
 by isospin

---
 src/decaymodes.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decaymodes.cc b/src/decaymodes.cc
index 775a67f..296727a 100644
--- a/src/decaymodes.cc
+++ b/src/decaymodes.cc
@@ -375,6 +375,7 @@ void DecayModes::load_decaymodes(const std::string &input) {
             min_L = min_angular_momentum(s0, s1, s2, s3);
             max_L = (s0 + s1 + s2 + s3) / 2;
             // loop through multiplets
+            bool forbidden_by_isospin = true;
             for (size_t m = 0; m < mother_states.size(); m++) {
               for (const auto &daughter1 : isotype_daughter_1.get_states()) {
                 for (const auto &daughter2 : isotype_daughter_2.get_states()) {
@@ -395,11 +396,17 @@ void DecayModes::load_decaymodes(const std::string &input) {
                       decay_modes_to_add[m].add_mode(
                           mother_states[m], ratio * cg_sqr, L,
                           {daughter1, daughter2, daughter3});
+                      forbidden_by_isospin = false;
                     }
                   }
                 }
               }
             }
+            if (forbidden_by_isospin) {
+              throw InvalidDecay(isotype_mother->name() +
+                                 " decay mode is forbidden by isospin: \"" +
+                                 line.text + "\"");
+            }
             break;
           }
           default:
-- 
2.43.0


From 040fdae114289645f0ec72c3e215456cf15ff3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:58 +0000
Subject: [PATCH 13/86] fix: keep particles inside the grid when a grid axis is
 about one cell long

---
 src/grid.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grid.cc b/src/grid.cc
index 0b36ff6..a71bd0a 100644
--- a/src/grid.cc
+++ b/src/grid.cc
@@ -191,10 +191,11 @@ Grid<O>::Grid(const std::pair<std::array<double, 3>, std::array<double, 3>>
                number_of_cells_[i] > max_cells) {
       number_of_cells_[i] = max_cells;
     }
-    // Only bother rescaling the index_factor if the grid length is large enough
-    // for 1 full min. cell length, since all particles are anyway placed in the
-    // first cell along the i-th axis
-    if (length_[i] >= max_interaction_length) {
+    // Only bother rescaling the index_factor if there are several cells or if
+    // the grid length is large enough for 1 full min. cell length (including
+    // rounding), since otherwise all particles are anyway placed in the first
+    // cell along the i-th axis
+    if (number_of_cells_[i] > 1 || length_[i] * index_factor[i] >= 1.) {
       index_factor[i] = number_of_cells_[i] / length_[i];
       // std::nextafter implements a safety margin so that no valid position
       // inside the grid can reference an out-of-bounds cell
-- 
2.43.0


From d29c2bf31ca48d0586e9126a13a15555bbd0f3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:26 +0000
Subject: [PATCH 14/86] fix: respect Decay_Initial_Particles when looking for
 decays

---
 src/include/smash/decayactionsfinder.h | 12 ++++++++----
 src/include/smash/experiment.h         |  3 ++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/include/smash/decayactionsfinder.h b/src/include/smash/decayactionsfinder.h
index a41ea05..413bd31 100644
--- a/src/include/smash/decayactionsfinder.h
+++ b/src/include/smash/decayactionsfinder.h
@@ -33,15 +33,20 @@ class DecayActionsFinder : public ActionFinderInterface {
    * \param[in] do_non_strong_decays whether to do non-strong decays at the end
    * \param[in] force_decays_at_end whether to enforce decays at the end
    * \param[in] spin_interaction_type Which type of spin interaction to use
+   * \param[in] decay_initial_particles whether particles may decay before
+   *                                    their first collision
    */
   explicit DecayActionsFinder(
       double res_lifetime_factor, bool do_non_strong_decays,
       bool force_decays_at_end,
-      SpinInteractionType spin_interaction_type = SpinInteractionType::Off)
+      SpinInteractionType spin_interaction_type = SpinInteractionType::Off,
+      bool decay_initial_particles =
+          InputKeys::collTerm_decayInitial.default_value())
       : res_lifetime_factor_(res_lifetime_factor),
         do_final_non_strong_decays_(do_non_strong_decays),
         find_final_decays_(force_decays_at_end),
-        spin_interaction_type_(spin_interaction_type) {}
+        spin_interaction_type_(spin_interaction_type),
+        decay_initial_particles_(decay_initial_particles) {}
 
   /**
    * Check the whole particle list for decays.
@@ -92,8 +97,7 @@ class DecayActionsFinder : public ActionFinderInterface {
    * Whether to initial state particles can decay. Useful for analyzing
    * interactions involving one or more resonances.
    */
-  const bool decay_initial_particles_ =
-      InputKeys::collTerm_decayInitial.default_value();
+  const bool decay_initial_particles_;
 };
 
 }  // namespace smash
diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index 81a1e93..4adb990 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -1056,7 +1056,8 @@ Experiment<Modus>::Experiment(Configuration &config,
     }
     action_finders_.emplace_back(std::make_unique<DecayActionsFinder>(
         parameters_.res_lifetime_factor, parameters_.do_non_strong_decays,
-        force_decays_, parameters_.spin_interaction_type));
+        force_decays_, parameters_.spin_interaction_type,
+        parameters_.decay_initial_particles));
   }
   bool no_coll = config.take(InputKeys::collTerm_noCollisions);
   if ((parameters_.two_to_one || parameters_.included_2to2.any() ||
-- 
2.43.0


From cdda672fa4c5ed60e21657bc492954d3651ae241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:26 +0000
Subject: [PATCH 15/86] fix: skip final decays of particles whose decay modes
 all have zero width

---
 src/decayactionsfinder.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/decayactionsfinder.cc b/src/decayactionsfinder.cc
index b329e22..292b86a 100644
--- a/src/decayactionsfinder.cc
+++ b/src/decayactionsfinder.cc
@@ -87,9 +87,16 @@ ActionList DecayActionsFinder::find_final_actions(
         continue;  // particle cannot decay (not even e.m. or weakly)
       }
 
+      DecayBranchList processes = p.type().get_partial_widths(
+          p.momentum(), p.position().threevec(), WhichDecaymodes::All);
+
+      // check if there are any decays with a finite width
+      if (!(total_weight<DecayBranch>(processes) > 0.0)) {
+        continue;
+      }
+
       auto act = std::make_unique<DecayAction>(p, 0., spin_interaction_type_);
-      act->add_decays(p.type().get_partial_widths(
-          p.momentum(), p.position().threevec(), WhichDecaymodes::All));
+      act->add_decays(std::move(processes));
       actions.emplace_back(std::move(act));
     }
   }
-- 
2.43.0


From 4e44b4e6872c4d0f0a513448324f491ebfd06b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:12 +0000
Subject: [PATCH 16/86] fix: keep nucleon scattering on A=3 nuclei from
 changing strangeness

---
 src/crosssections.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crosssections.cc b/src/crosssections.cc
index 77c4ba4..9a54317 100644
--- a/src/crosssections.cc
+++ b/src/crosssections.cc
@@ -965,8 +965,8 @@ CollisionBranchList CrossSections::two_to_two(
       process_list = deltak_xx(included_2to2);
     }
   } else if (type_a.is_nucleus() || type_b.is_nucleus()) {
-    if ((type_a.is_nucleon() && type_b.is_nucleus()) ||
-        (type_b.is_nucleon() && type_a.is_nucleus())) {
+    if ((type_a.is_nucleon() && (type_b.is_deuteron() || type_b.is_dprime())) ||
+        (type_b.is_nucleon() && (type_a.is_deuteron() || type_a.is_dprime()))) {
       // Nucleon Deuteron and Nucleon d' Scattering
       process_list = dn_xx(included_2to2);
     } else if (((type_a.is_deuteron() || type_a.is_dprime()) &&
-- 
2.43.0


From 212ef6ce67fd32ed3b60a11115233d9a4ada109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:39 +0000
Subject: [PATCH 17/86] fix: use the rho-h1 tabulation for rho h1 pairs in
 either order

---
 src/isoparticletype.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/isoparticletype.cc b/src/isoparticletype.cc
index 4387084..c6c12c7 100644
--- a/src/isoparticletype.cc
+++ b/src/isoparticletype.cc
@@ -354,10 +354,8 @@ double IsoParticleType::get_integral_RR(IsoParticleType *type_res_2,
     return XS_rhoR_tabulation_->get_value_linear(sqrts);
   }
   if (type_res_2->name() == "h₁(1170)") {
-    if (XS_rhoR_tabulation_ == nullptr) {
-      XS_rhoR_tabulation_ = &rhoR_tabulations.at(res->name());
-    }
-    return XS_rhoR_tabulation_->get_value_linear(sqrts);
+    // The tabulation is labelled by the partner of the ρ, i.e. the h₁
+    return type_res_2->get_integral_rhoR(sqrts);
   }
   std::stringstream err;
   err << "RR=" << name() << type_res_2->name() << " is not implemented";
-- 
2.43.0


From 7c8dabac25bd57aa83ce6618aba0ef988fad7c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:21 +0000
Subject: [PATCH 18/86] fix: keep the parametrized pi+ p total cross section
 non-negative at the threshold

---
 src/parametrizations.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parametrizations.cc b/src/parametrizations.cc
index aa97162..7ec77d9 100644
--- a/src/parametrizations.cc
+++ b/src/parametrizations.cc
@@ -9,6 +9,7 @@
 
 #include "smash/parametrizations.h"
 
+#include <algorithm>
 #include <cmath>
 #include <initializer_list>
 #include <iostream>
@@ -149,8 +150,9 @@ double piplusp_total(double sqrts) {
         std::make_unique<InterpolateDataLinear<double>>(dedup_x, dedup_y);
   }
   const double last = *(PIPLUSP_TOT_SQRTS.end() - 1);
+  // The extrapolation below the first data point is negative at the threshold
   if (sqrts < last)
-    return (*piplusp_total_interpolation)(sqrts);
+    return std::max(0., (*piplusp_total_interpolation)(sqrts));
   else
     return piplusp_high_energy(sqrts * sqrts);
 }
-- 
2.43.0


From 9fc2d1d68d6de746b682a653134ef26dd4c6c0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:17 +0000
Subject: [PATCH 19/86] fix: no stochastic collisions of particles without
 relative motion

---
 src/scatteractionsfinder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scatteractionsfinder.cc b/src/scatteractionsfinder.cc
index 45d7143..dc9973b 100644
--- a/src/scatteractionsfinder.cc
+++ b/src/scatteractionsfinder.cc
@@ -269,6 +269,11 @@ ActionPtr ScatterActionsFinder::check_collision_two_part(
       finder_parameters_.spin_interaction_type);
 
   if (finder_parameters_.coll_crit == CollisionCriterion::Stochastic) {
+    /* As for the other criteria, no collision without relative motion, for
+     * which the probability (cross section times velocity) is undefined. */
+    if (act->relative_velocity() < really_small) {
+      return nullptr;
+    }
     act->set_stochastic_pos_idx();
   }
 
-- 
2.43.0


From 503108e925ab6d20d7876be12e233332288bc09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:35 +0000
Subject: [PATCH 20/86] fix: report the parametrized total cross section as the
 total weight

If the total cross section comes from a parametrization, the partial ones
are rescaled to it, and a partial weight could exceed the total one.
---
 src/scatteraction.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/scatteraction.cc b/src/scatteraction.cc
index 8533962..ab321b4 100644
--- a/src/scatteraction.cc
+++ b/src/scatteraction.cc
@@ -322,8 +322,7 @@ void ScatterAction::set_parametrized_total_cross_section(
 }
 
 double ScatterAction::get_total_weight() const {
-  return sum_of_partial_cross_sections_ *
-         incoming_particles_[0].xsec_scaling_factor() *
+  return cross_section() * incoming_particles_[0].xsec_scaling_factor() *
          incoming_particles_[1].xsec_scaling_factor();
 }
 
-- 
2.43.0


From c9bbd4ce465cf714082323337afc28a9013cea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:18 +0000
Subject: [PATCH 21/86] fix: use the Mandelstam s, not its root, for the
 elastic angles of other pairs than NN

---
 src/scatteraction.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scatteraction.cc b/src/scatteraction.cc
index ab321b4..548b9db 100644
--- a/src/scatteraction.cc
+++ b/src/scatteraction.cc
@@ -530,7 +530,7 @@ void ScatterAction::sample_angles(std::pair<double, double> masses,
        * when nucleon mass is assumed. */
       const double pcm_now = pCM_from_s(mandelstam_s(), mass_in_a, mass_in_b);
       mandelstam_s_new =
-          4. * std::sqrt(pcm_now * pcm_now + nucleon_mass * nucleon_mass);
+          4. * (pcm_now * pcm_now + nucleon_mass * nucleon_mass);
     }
     double bb, a, plab = plab_from_s(mandelstam_s_new);
     if (nn_scattering &&
-- 
2.43.0


From 2d119d878eaeeb52c66936ff4d14a15c2d71c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:10 +0000
Subject: [PATCH 22/86] fix: stay on the lattice when iterating over nearest
 neighbors

A particle outside of a non-periodic lattice made the discrete smearing
write outside of the memory of the lattice, and one in a cell at the edge
got the weight of the central cell several times.
---
 src/include/smash/lattice.h | 43 +++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/include/smash/lattice.h b/src/include/smash/lattice.h
index 9445f63..889e46c 100644
--- a/src/include/smash/lattice.h
+++ b/src/include/smash/lattice.h
@@ -736,13 +736,22 @@ class RectangularLattice {
   template <typename F>
   void iterate_nearest_neighbors(const ThreeVector& point, F&& func) {
     // get the 3D indices of the cell containing the given point
-    const int ix = numeric_cast<int>(
+    int ix = numeric_cast<int>(
         std::floor((point.x1() - origin_[0]) / cell_sizes_[0]));
-    const int iy = numeric_cast<int>(
+    int iy = numeric_cast<int>(
         std::floor((point.x2() - origin_[1]) / cell_sizes_[1]));
-    const int iz = numeric_cast<int>(
+    int iz = numeric_cast<int>(
         std::floor((point.x3() - origin_[2]) / cell_sizes_[2]));
 
+    if (periodic_) {
+      ix = positive_modulo(ix, n_cells_[0]);
+      iy = positive_modulo(iy, n_cells_[1]);
+      iz = positive_modulo(iz, n_cells_[2]);
+    } else if (out_of_bounds(ix, iy, iz)) {
+      // there is no center cell
+      return;
+    }
+
     logg[LLattice].debug(
         "Iterating over nearest neighbors of the cell at ix = ", ix,
         ", iy = ", iy, ", iz = ", iz);
@@ -751,24 +760,16 @@ class RectangularLattice {
     const int i = index1d(ix, iy, iz);
     func(lattice_[i], i, i);
 
-    // determine the indeces of nearby cells, perform function on them
-    int ileft = index_left(ix, iy, iz);
-    func(lattice_[ileft], ileft, i);
-
-    int iright = index_right(ix, iy, iz);
-    func(lattice_[iright], iright, i);
-
-    int idown = index_down(ix, iy, iz);
-    func(lattice_[idown], idown, i);
-
-    int iup = index_up(ix, iy, iz);
-    func(lattice_[iup], iup, i);
-
-    int ibackward = index_backward(ix, iy, iz);
-    func(lattice_[ibackward], ibackward, i);
-
-    int iforward = index_forward(ix, iy, iz);
-    func(lattice_[iforward], iforward, i);
+    // determine the indices of nearby cells, perform function on them;
+    // at the edge of a non-periodic lattice there is no neighbor
+    for (const int neighbor :
+         {index_left(ix, iy, iz), index_right(ix, iy, iz),
+          index_down(ix, iy, iz), index_up(ix, iy, iz),
+          index_backward(ix, iy, iz), index_forward(ix, iy, iz)}) {
+      if (periodic_ || neighbor != i) {
+        func(lattice_[neighbor], neighbor, i);
+      }
+    }
   }
 
   /**
-- 
2.43.0


From eb3bfeac8fa3e07f14ba12ccc2a4d4c5d9c49d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:10 +0000
Subject: [PATCH 23/86] fix: resize the memory of a lattice with a new number
 of cells

---
 src/include/smash/lattice.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/smash/lattice.h b/src/include/smash/lattice.h
index 889e46c..cc10c96 100644
--- a/src/include/smash/lattice.h
+++ b/src/include/smash/lattice.h
@@ -823,8 +823,10 @@ class RectangularLattice {
       lattice_sizes_ = *new_length;
     if (new_origin)
       origin_ = *new_origin;
-    if (new_cells)
+    if (new_cells) {
       n_cells_ = *new_cells;
+      lattice_.assign(n_cells_[0] * n_cells_[1] * n_cells_[2], T());
+    }
     cell_sizes_ = {lattice_sizes_[0] / n_cells_[0],
                    lattice_sizes_[1] / n_cells_[1],
                    lattice_sizes_[2] / n_cells_[2]};
-- 
2.43.0


From 36b161539b60d22dc7df8b6256e36e501bfdff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:02 +0000
Subject: [PATCH 24/86] fix: attract antibaryons to antibaryons by the Skyrme
 force as in matter

---
 src/potentials.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/potentials.cc b/src/potentials.cc
index 4abd3b5..ce767ef 100644
--- a/src/potentials.cc
+++ b/src/potentials.cc
@@ -168,10 +168,9 @@ std::pair<ThreeVector, ThreeVector> Potentials::skyrme_force(
     const ThreeVector curl_vecjB) const {
   ThreeVector E_component(0.0, 0.0, 0.0), B_component(0.0, 0.0, 0.0);
   if (use_skyrme_) {
-    const int sgn = rhoB > 0 ? 1 : -1;
+    // The potential is odd in the density, hence its derivative is even
     const double abs_rhoB = std::abs(rhoB);
-    const double dV_drho = sgn *
-                           (skyrme_a_ + skyrme_b_ * skyrme_tau_ *
+    const double dV_drho = (skyrme_a_ + skyrme_b_ * skyrme_tau_ *
                                             std::pow(abs_rhoB / nuclear_density,
                                                      skyrme_tau_ - 1)) *
                            mev_to_gev / nuclear_density;
-- 
2.43.0


From 7e06e31e008e2f9ba71a52d296d427fb0ca00c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:02 +0000
Subject: [PATCH 25/86] fix: make the VDF mean field odd under charge
 conjugation

---
 src/potentials.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/potentials.cc b/src/potentials.cc
index ce767ef..33c2fd4 100644
--- a/src/potentials.cc
+++ b/src/potentials.cc
@@ -104,20 +104,19 @@ FourVector Potentials::vdf_pot(double rhoB, const FourVector jmuB_net) const {
   // this needs to be used in order to prevent trying to calculate something
   // like
   // (-rho_B)^{3.4}
-  const int sgn = rhoB > 0 ? 1 : -1;
   double abs_rhoB = std::abs(rhoB);
   // to prevent NAN expressions
   if (abs_rhoB < very_small_double) {
     abs_rhoB = very_small_double;
   }
   // F_2 is a multiplicative factor in front of the baryon current
-  // in the VDF potential
+  // in the VDF potential; the current already changes its sign under charge
+  // conjugation, so F_2 must not
   double F_2 = 0.0;
   for (int i = 0; i < number_of_terms(); i++) {
     F_2 += coeffs_[i] * std::pow(abs_rhoB, powers_[i] - 2.0) /
            std::pow(saturation_density_, powers_[i] - 1.0);
   }
-  F_2 = F_2 * sgn;
   // Return in GeV
   return F_2 * jmuB_net;
 }
@@ -225,7 +224,6 @@ std::pair<ThreeVector, ThreeVector> Potentials::vdf_force(
       F_2 += coeffs_[i] * std::pow(abs_rhoB, powers_[i] - 2.0) /
              std::pow(saturation_density_, powers_[i] - 1.0);
     }
-    F_2 = F_2 * sgn;
 
     E_component -= (F_1 * (grad_rhoB * j0B + drhoB_dt * vecjB) +
                     F_2 * (grad_j0B + dvecjB_dt));
-- 
2.43.0


From abc8bcba09dc4b1d46275cba083d2f8c4230a0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:02 +0000
Subject: [PATCH 26/86] fix: evaluate the density dependent symmetry potential
 at any density

---
 src/potentials.cc | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/potentials.cc b/src/potentials.cc
index 33c2fd4..03e89ec 100644
--- a/src/potentials.cc
+++ b/src/potentials.cc
@@ -83,8 +83,9 @@ double Potentials::skyrme_pot(const double baryon_density, const double A,
 
 double Potentials::symmetry_S(const double baryon_density) const {
   if (symmetry_is_rhoB_dependent_) {
-    return 12.3 * std::pow(baryon_density / nuclear_density, 2. / 3.) +
-           20.0 * std::pow(baryon_density / nuclear_density, symmetry_gamma_);
+    const double abs_density = std::abs(baryon_density) / nuclear_density;
+    return 12.3 * std::pow(abs_density, 2. / 3.) +
+           20.0 * std::pow(abs_density, symmetry_gamma_);
   } else {
     return 0.;
   }
@@ -93,7 +94,8 @@ double Potentials::symmetry_pot(const double baryon_isospin_density,
                                 const double baryon_density) const {
   double pot = mev_to_gev * 2. * symmetry_S_Pot_ * baryon_isospin_density /
                nuclear_density;
-  if (symmetry_is_rhoB_dependent_) {
+  if (symmetry_is_rhoB_dependent_ &&
+      std::abs(baryon_density) > very_small_double) {
     pot += mev_to_gev * symmetry_S(baryon_density) * baryon_isospin_density *
            baryon_isospin_density / (baryon_density * baryon_density);
   }
@@ -246,7 +248,7 @@ std::pair<ThreeVector, ThreeVector> Potentials::vdf_force(
 
 double Potentials::dVsym_drhoI3(const double rhoB, const double rhoI3) const {
   double term1 = 2. * symmetry_S_Pot_ / nuclear_density;
-  if (symmetry_is_rhoB_dependent_) {
+  if (symmetry_is_rhoB_dependent_ && std::abs(rhoB) > very_small_double) {
     double term2 = 2. * rhoI3 * symmetry_S(rhoB) / (rhoB * rhoB);
     return mev_to_gev * (term1 + term2);
   } else {
@@ -255,11 +257,13 @@ double Potentials::dVsym_drhoI3(const double rhoB, const double rhoI3) const {
 }
 
 double Potentials::dVsym_drhoB(const double rhoB, const double rhoI3) const {
-  if (symmetry_is_rhoB_dependent_) {
-    double rhoB_over_rho0 = rhoB / nuclear_density;
-    double term1 = 8.2 * std::pow(rhoB_over_rho0, -1. / 3.) / nuclear_density +
-                   20. * symmetry_gamma_ *
-                       std::pow(rhoB_over_rho0, symmetry_gamma_) / rhoB;
+  if (symmetry_is_rhoB_dependent_ && std::abs(rhoB) > very_small_double) {
+    const int sgn = rhoB > 0 ? 1 : -1;
+    double rhoB_over_rho0 = std::abs(rhoB) / nuclear_density;
+    double term1 =
+        sgn * 8.2 * std::pow(rhoB_over_rho0, -1. / 3.) / nuclear_density +
+        20. * symmetry_gamma_ * std::pow(rhoB_over_rho0, symmetry_gamma_) /
+            rhoB;
     double term2 = -2. * symmetry_S(rhoB) / rhoB;
     return mev_to_gev * (term1 + term2) * rhoI3 * rhoI3 / (rhoB * rhoB);
   } else {
-- 
2.43.0


From 0cce154f1b8c4051bebd72c0553207ec2b5d8249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:29 +0000
Subject: [PATCH 27/86] fix: divide the electromagnetic fields of the charges
 by 4 pi

The elementary charge is in Heaviside-Lorentz units (e^2 = 4 pi alpha), as is
the energy of the fields, so Coulomb forces were 4 pi times too strong.
---
 src/include/smash/input_keys.h | 16 +++++++++-------
 src/include/smash/potentials.h |  9 ++++++---
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/include/smash/input_keys.h b/src/include/smash/input_keys.h
index a11b62e..53415d3 100644
--- a/src/include/smash/input_keys.h
+++ b/src/include/smash/input_keys.h
@@ -976,9 +976,9 @@ struct InputSections {
  * \f[
  * \mathbf{E}(\mathbf{r})
  * = -\boldsymbol{\nabla} \phi(\mathbf{r})
- * = -\boldsymbol{\nabla}\int\frac{\rho(\mathbf{r}')}
+ * = -\boldsymbol{\nabla}\frac{1}{4\pi}\int\frac{\rho(\mathbf{r}')}
  *                                {|\mathbf{r}-\mathbf{r}'|} dV'
- * = \int\frac{\rho(\mathbf{r}')(\mathbf{r}-\mathbf{r}')}
+ * = \frac{1}{4\pi}\int\frac{\rho(\mathbf{r}')(\mathbf{r}-\mathbf{r}')}
  *            {|\mathbf{r}-\mathbf{r}'|^3}dV'
  * \f]
  * and
@@ -986,21 +986,23 @@ struct InputSections {
  * \mathbf{B}(\mathbf{r})
  * = \boldsymbol{\nabla}\times\mathbf{A}(\mathbf{r})
  * = \boldsymbol{\nabla}\times
- *   \int\frac{\mathbf{j}(\mathbf{r}')}{|\mathbf{r}-\mathbf{r}'|}dV'
- * = \int\mathbf{j}(\mathbf{r}')\times
+ *   \frac{1}{4\pi}\int\frac{\mathbf{j}(\mathbf{r}')}
+ *                             {|\mathbf{r}-\mathbf{r}'|}dV'
+ * = \frac{1}{4\pi}\int\mathbf{j}(\mathbf{r}')\times
  *   \frac{\mathbf{r}-\mathbf{r}'}{|\mathbf{r}-\mathbf{r}'|^3}dV'\;.
  * \f]
  * These integrals are solved numerically on the SMASH lattice, where the
  * discretized equations read
  * \f[
  * \mathbf{E}(\mathbf{r}_j)
- * = \sum_{i\neq j} \frac{\rho(\mathbf{r}_i)(\mathbf{r}_j-\mathbf{r}_i)}
- *                       {|\mathbf{r}_j-\mathbf{r}_i|^3}\Delta V
+ * = \frac{1}{4\pi}\sum_{i\neq j}
+ *   \frac{\rho(\mathbf{r}_i)(\mathbf{r}_j-\mathbf{r}_i)}
+ *        {|\mathbf{r}_j-\mathbf{r}_i|^3}\Delta V
  * \f]
  * and
  * \f[
  * \mathbf{B}(\mathbf{r}_j)
- * = \sum_{i\neq j}\mathbf{j}(\mathbf{r}_i)\times
+ * = \frac{1}{4\pi}\sum_{i\neq j}\mathbf{j}(\mathbf{r}_i)\times
  *                 \frac{\mathbf{r}_j-\mathbf{r}_i}
  *                      {|\mathbf{r}_j-\mathbf{r}_i|^3} \Delta V
  * \f]
diff --git a/src/include/smash/potentials.h b/src/include/smash/potentials.h
index a51d0bc..57bae4d 100644
--- a/src/include/smash/potentials.h
+++ b/src/include/smash/potentials.h
@@ -354,9 +354,12 @@ class Potentials {
    * The field is calculated via
    * \f[
    * \mathbf{E}(\mathbf{r})
-   * = \int\frac{(\mathbf{r}-\mathbf{r}^\prime)\rho(\mathbf{r}^\prime)}
+   * = \frac{e}{4\pi}
+   *   \int\frac{(\mathbf{r}-\mathbf{r}^\prime)\rho(\mathbf{r}^\prime)}
    *            {|\mathbf{r}-\mathbf{r}^\prime|^3}d^3r^\prime
    * \f]
+   * where the elementary charge \f$e=\sqrt{4\pi\alpha}\f$ is in
+   * Heaviside-Lorentz units.
    *
    * \param[in] pos position vector to be integrated over
    * \param[in] charge_density electric charge density at position pos
@@ -370,7 +373,7 @@ class Potentials {
       return {0., 0., 0.};
     }
     return elementary_charge * charge_density.rho() * dr /
-           std::pow(dr.abs(), 3);
+           (4 * M_PI * std::pow(dr.abs(), 3));
   }
 
   /**
@@ -389,7 +392,7 @@ class Potentials {
     }
     return elementary_charge *
            charge_density.jmu_net().threevec().cross_product(dr) /
-           std::pow(dr.abs(), 3);
+           (4 * M_PI * std::pow(dr.abs(), 3));
   }
   /**
    * Evaluates the electric and magnetic components of force in the VDF model
-- 
2.43.0


From 5b2ae24d6f8c140cf3164655f98a35ff98371bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 28/86] fix: forget the beam momenta of the previous event

With frozen Fermi motion, the momenta of every event were appended to
those of the first one, which all events used for the propagation (with
velocities that differ in the last digits).
---
 src/include/smash/experiment.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index 4adb990..855af51 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2241,6 +2241,8 @@ void Experiment<Modus>::initialize_new_event() {
    * for every ensemble.
    */
   if (modus_.is_collider() && modus_.fermi_motion() == FermiMotion::Frozen) {
+    // Those of the previous event are not needed any more
+    beam_momentum_.clear();
     for (ParticleData &particle : ensembles_[0]) {
       const double m = particle.effective_mass();
       double v_beam = 0.0;
-- 
2.43.0


From debe6111957d2fa9f4697ddb0203bf16cdd8c755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:37 +0000
Subject: [PATCH 29/86] fix: do not sample negative particle numbers from the
 Bessel distribution

---
 src/random.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/random.cc b/src/random.cc
index 4049abf..b6ad058 100644
--- a/src/random.cc
+++ b/src/random.cc
@@ -72,9 +72,13 @@ random::BesselSampler::BesselSampler(const double poisson_mean1,
 }
 
 std::pair<int, int> random::BesselSampler::sample() {
-  const int N_smaller = numeric_cast<int>(
-      (m_ >= m_switch_method_) ? std::round(random::normal(mu_, sigma_))
-                               : std::floor(dist_()));
+  int N_smaller;
+  do {
+    // The tail of the normal approximation reaches below zero
+    N_smaller = numeric_cast<int>((m_ >= m_switch_method_)
+                                      ? std::round(random::normal(mu_, sigma_))
+                                      : std::floor(dist_()));
+  } while (N_smaller < 0);
   return N_is_positive_ ? std::make_pair(N_smaller + N_, N_smaller)
                         : std::make_pair(N_smaller, N_smaller + N_);
 }
-- 
2.43.0


From 58ad67277d779ae09c95cdde67a57d54a135f831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:18 +0000
Subject: [PATCH 30/86] fix: accept negative integrals that meet the relative
 tolerance

---
 src/include/smash/integrate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/smash/integrate.h b/src/include/smash/integrate.h
index 5f062a4..560b8a6 100644
--- a/src/include/smash/integrate.h
+++ b/src/include/smash/integrate.h
@@ -13,6 +13,7 @@
 #include <cuba.h>
 
 #include <algorithm>
+#include <cmath>
 #include <iostream>
 #include <memory>
 #include <sstream>
@@ -80,7 +81,7 @@ class Result : public std::pair<double, double> {
                    double relative_tolerance = 5e-4,
                    double absolute_tolerance = 1e-9) const {
     const double allowed_error =
-        std::max(absolute_tolerance, value() * relative_tolerance);
+        std::max(absolute_tolerance, std::abs(value()) * relative_tolerance);
     if (error() > allowed_error) {
       std::stringstream error_msg;
       error_msg << integration_name << " resulted in I = " << value() << " ± "
-- 
2.43.0


From 65a83b9e94975d3f2e1ac6246dd9b2042d788501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:19 +0000
Subject: [PATCH 31/86] fix: let several root solvers exist at the same time

---
 src/include/smash/rootsolver.h | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/include/smash/rootsolver.h b/src/include/smash/rootsolver.h
index 5549d53..ef3e42c 100644
--- a/src/include/smash/rootsolver.h
+++ b/src/include/smash/rootsolver.h
@@ -11,7 +11,6 @@
 #define SRC_INCLUDE_SMASH_ROOTSOLVER_H_
 
 #include <functional>
-#include <memory>
 #include <optional>
 #include <string>
 
@@ -34,11 +33,7 @@ class RootSolver1D {
    *
    * \param[in] eq The function of which a root is desired
    */
-  explicit RootSolver1D(std::function<double(double)> eq) {
-    root_eq_ = std::make_unique<std::function<double(double)>>(eq);
-  }
-
-  ~RootSolver1D() { root_eq_ = nullptr; }
+  explicit RootSolver1D(std::function<double(double)> eq) : root_eq_(eq) {}
 
   /**
    * Attempt to find a root in a given interval
@@ -52,14 +47,14 @@ class RootSolver1D {
                                       double initial_guess_high,
                                       size_t itermax) {
     // check if root is in the given interval
-    if ((*root_eq_)(initial_guess_low) * (*root_eq_)(initial_guess_high) > 0) {
+    if (root_eq_(initial_guess_low) * root_eq_(initial_guess_high) > 0) {
       logg[LRootSolver].trace()
           << "Function has same sign at both ends of the interval ["
           << initial_guess_low << ", " << initial_guess_high
           << "]. Root can't be found in this interval.";
       return std::nullopt;
     }
-    gsl_function function_GSL = {&(gsl_func), nullptr};
+    gsl_function function_GSL = {&(gsl_func), &root_eq_};
     int status = GSL_CONTINUE;
     size_t iter = 0;
     Root_finder_ = gsl_root_fsolver_alloc(Solver_name_);
@@ -93,15 +88,8 @@ class RootSolver1D {
   /// GSL root finding object to take care of root finding
   gsl_root_fsolver *Root_finder_ = nullptr;
 
-  /** Static pointer to the function to solve
-   * \note This member has to be \c static since it is used inside the `static
-   * gsl_func` method. As \c static methods exist and can be used without a
-   * class instance, it is not possible to use non-static members inside them
-   * (non-static members \b are bound to a class instance). \see gsl_func to
-   * understand why that method needs to be \c static as well.
-   */
-  static inline std::unique_ptr<std::function<double(double)>> root_eq_ =
-      nullptr;
+  /// The function to solve, handed over to \c gsl_func as its parameter
+  std::function<double(double)> root_eq_;
 
   /// Expected precision of the root
   double solution_precision_ = 1e-7;
@@ -110,6 +98,7 @@ class RootSolver1D {
    * The function of which a root should be found in the form that GSL expects
    *
    * \param[in] x Argument of the function
+   * \param[in] function Pointer to the function to solve
    *
    * \return The value of the function for the given argument x
    *
@@ -122,7 +111,9 @@ class RootSolver1D {
    * pointer to a free function, because a \c static method exists without
    * needing any instance of the class.
    */
-  static double gsl_func(const double x, void *) { return (*root_eq_)(x); }
+  static double gsl_func(const double x, void *function) {
+    return (*static_cast<std::function<double(double)> *>(function))(x);
+  }
 };
 
 }  // namespace smash
-- 
2.43.0


From ee2979bba34216ea5ba325e7e955c7982a74fa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:19 +0000
Subject: [PATCH 32/86] fix: refuse time steps below the resolution of the
 clock

---
 src/include/smash/clock.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/smash/clock.h b/src/include/smash/clock.h
index 0129636..b6938a4 100644
--- a/src/include/smash/clock.h
+++ b/src/include/smash/clock.h
@@ -236,7 +236,7 @@ class UniformClock : public Clock {
       : timestep_duration_(convert(dt)),
         reset_time_(convert(time)),
         time_end_(convert(time_end)) {
-    if (dt <= 0.) {
+    if (timestep_duration_ <= 0) {
       throw std::range_error("Time increment must be positive and non-zero");
     }
     if (reset_time_ >= time_end_) {
@@ -304,7 +304,7 @@ class UniformClock : public Clock {
    * \param[in] dt new time step size
    */
   void set_timestep_duration(double dt) {
-    if (dt <= 0.) {
+    if (convert(dt) <= 0) {
       throw std::range_error("Time increment must be positive and non-zero!");
     }
     reset_time_ += timestep_duration_ * counter_;
-- 
2.43.0


From 889beb9052cc24a34b3627c211c89107b433bf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:50 +0000
Subject: [PATCH 33/86] fix: do not read beyond the labels of a key when
 validating

A configuration key with fewer labels than one taken as a map, but the same
leading ones, e.g. {Modi: {Collider: {Projectile: 3}}}, was compared beyond
the end of its labels.
---
 src/configuration.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/configuration.cc b/src/configuration.cc
index 0325c1f..760376b 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -524,9 +524,9 @@ void adjust_list_of_labels_dealing_with_keys_taken_as_maps(
     std::for_each(list_of_input_key_labels.begin(),
                   list_of_input_key_labels.end(),
                   [&labels](KeyLabels &labels_of_input_key) {
-                    if (std::equal(labels.begin(), labels.end(),
-                                   labels_of_input_key.begin(),
-                                   labels_of_input_key.begin() + labels.size()))
+                    if (labels_of_input_key.size() >= labels.size() &&
+                        std::equal(labels.begin(), labels.end(),
+                                   labels_of_input_key.begin()))
                       labels_of_input_key = labels;
                   });
   }
-- 
2.43.0


From 66e45a588c8a9d9ede7f50844d78eaea45ace836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:50 +0000
Subject: [PATCH 34/86] fix: let a merged section replace a value

Merging a section where the configuration has a value threw an exception (in
the middle of merging) or, for sequences, mixed their elements into the
section, although conflicts are to be resolved by taking the new content.
---
 src/configuration.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/configuration.cc b/src/configuration.cc
index 760376b..f68f6d6 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -94,6 +94,10 @@ YAML::Node remove_empty_maps(YAML::Node root) {
  */
 YAML::Node operator|=(YAML::Node a, const YAML::Node &b) {
   if (b.IsMap()) {
+    // A value cannot get sub-keys, the section given in b replaces it
+    if (a.IsScalar() || a.IsSequence()) {
+      a = YAML::Node(YAML::NodeType::Map);
+    }
     for (auto n0 : b) {
       a[n0.first.Scalar()] |= n0.second;
     }
-- 
2.43.0


From f6e956e97bf632fbb8bf8a2cb8b7669bb166af23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:50 +0000
Subject: [PATCH 35/86] fix: merging an empty document must not erase the
 configuration

---
 src/configuration.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/configuration.cc b/src/configuration.cc
index f68f6d6..5cd4c4a 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -195,7 +195,12 @@ Configuration::~Configuration() noexcept(false) {
 
 void Configuration::merge_yaml(const std::string &yaml) {
   try {
-    root_node_ |= YAML::Load(yaml);
+    const YAML::Node to_be_merged = YAML::Load(yaml);
+    // A document without content does not contain anything to be merged
+    if (to_be_merged.IsNull()) {
+      return;
+    }
+    root_node_ |= to_be_merged;
   } catch (YAML::ParserException &e) {
     if (e.msg == "illegal map value" || e.msg == "end of map not found") {
       const auto line = std::to_string(e.mark.line + 1);
-- 
2.43.0


From 481dd40351c94efe07bcdc58c7e351a530fbd61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:50 +0000
Subject: [PATCH 36/86] fix: values set or merged into an emptied configuration
 got lost

The root node of a configuration that was cleared, moved from or extracted from
a not existing section does not refer to any memory. Copies of it do not share
what is added to them.
---
 src/configuration.cc              | 10 +++++++++-
 src/include/smash/configuration.h |  9 ++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/configuration.cc b/src/configuration.cc
index 5cd4c4a..5eb45b8 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -200,6 +200,7 @@ void Configuration::merge_yaml(const std::string &yaml) {
     if (to_be_merged.IsNull()) {
       return;
     }
+    ensure_root_node_can_be_filled();
     root_node_ |= to_be_merged;
   } catch (YAML::ParserException &e) {
     if (e.msg == "illegal map value" || e.msg == "end of map not found") {
@@ -385,9 +386,16 @@ std::optional<YAML::Node> Configuration::find_existing_node(
   return node;
 }
 
+void Configuration::ensure_root_node_can_be_filled() {
+  if (root_node_.IsNull()) {
+    root_node_.reset(YAML::Node{YAML::NodeType::Map});
+  }
+}
+
 YAML::Node Configuration::find_node_creating_it_if_not_existing(
-    std::vector<std::string_view> keys) const {
+    std::vector<std::string_view> keys) {
   assert(keys.size() > 0);
+  ensure_root_node_can_be_filled();
   YAML::Node node{root_node_};
   for (const auto &key : keys) {
     // See comments in descend_one_existing_level function
diff --git a/src/include/smash/configuration.h b/src/include/smash/configuration.h
index 537616f..85988ba 100644
--- a/src/include/smash/configuration.h
+++ b/src/include/smash/configuration.h
@@ -1554,7 +1554,14 @@ class Configuration {
    * \return Node in the tree reached by using the provided keys.
    */
   YAML::Node find_node_creating_it_if_not_existing(
-      std::vector<std::string_view> keys) const;
+      std::vector<std::string_view> keys);
+
+  /**
+   * Make sure that the root node refers to a map. The root node of an empty
+   * configuration might not refer to any memory and what is then added to a
+   * copy of it would not be seen by this object.
+   */
+  void ensure_root_node_can_be_filled();
 
   /**
    * Descend in the YAML tree from the given node using the provided keys.
-- 
2.43.0


From 76a082d8f81152bceb4d4c71b3b78fd942c783dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:50 +0000
Subject: [PATCH 37/86] fix: looking for a key below a sequence threw an
 invalid node exception

---
 src/configuration.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/configuration.cc b/src/configuration.cc
index 5eb45b8..2d32d5e 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -40,6 +40,10 @@ namespace {
 void descend_one_existing_level(std::optional<YAML::Node> &node,
                                 std::string_view key) {
   if (node) {
+    if (!node->IsMap()) {
+      node = std::nullopt;
+      return;
+    }
     for (const auto &section : node.value()) {
       /* Two remarks:
            1) The Node::operator[] creates an undefined node in the YAML tree if
-- 
2.43.0


From 106314d9c32641f2187d1d7ed37ba1a621a313f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:50 +0000
Subject: [PATCH 38/86] fix: taking a key also removed the one with empty label

---
 src/configuration.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/configuration.cc b/src/configuration.cc
index 2d32d5e..98b6be6 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -74,7 +74,8 @@ void descend_one_existing_level(std::optional<YAML::Node> &node,
  */
 YAML::Node remove_empty_maps(YAML::Node root) {
   if (root.IsMap()) {
-    std::vector<std::string> to_remove(root.size());
+    std::vector<std::string> to_remove{};
+    to_remove.reserve(root.size());
     for (auto n : root) {
       remove_empty_maps(n.second);
       // If the node is an empty sequence, we do NOT remove it!
-- 
2.43.0


From 54b77fedf7d4489b8e3cf616035b3b76b94cad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:50 +0000
Subject: [PATCH 39/86] fix: report map entries of wrong type as incorrect type

The conversion of an entry of a key taken as map threw the exception of the
YAML library that does not name the key.
---
 src/include/smash/configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/configuration.h b/src/include/smash/configuration.h
index 85988ba..44d06f4 100644
--- a/src/include/smash/configuration.h
+++ b/src/include/smash/configuration.h
@@ -877,7 +877,7 @@ class Configuration {
     operator T() const {
       try {
         return node_.as<T>();
-      } catch (YAML::TypedBadConversion<T> &e) {
+      } catch (YAML::BadConversion &e) {  // also for an element of T
         throw IncorrectTypeInAssignment(
             "The value for key \"" + std::string(key_) +
             "\" cannot be converted to the requested type.");
-- 
2.43.0


From 95d44763abb9b314603773e166db1610f891f033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 40/86] fix: removing entries of a sequence threw an invalid
 node exception

---
 src/configuration.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/configuration.cc b/src/configuration.cc
index 98b6be6..e193ed5 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -273,7 +273,7 @@ Configuration::Value Configuration::read(
 void Configuration::remove_all_entries_in_section_but_one(
     const std::string &key, KeyLabels section) {
   auto found_node = find_existing_node({section.begin(), section.end()});
-  if (found_node) {
+  if (found_node && !found_node->IsSequence()) {
     std::vector<std::string> to_remove{};
     bool key_exists = false;
     for (auto i : found_node.value()) {
-- 
2.43.0


From 27cd361a2eead47cd794ebc78bba7c825526a854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:56 +0000
Subject: [PATCH 41/86] fix: write log levels to a configuration as they are
 read

The padded strings meant for the log messages ("  ALL", " INFO", " WARN") are
not accepted as level when read.
---
 src/include/smash/logging.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/smash/logging.h b/src/include/smash/logging.h
index 6d4d548..df73cb5 100644
--- a/src/include/smash/logging.h
+++ b/src/include/smash/logging.h
@@ -17,6 +17,7 @@
 #include "yaml-cpp/yaml.h"
 
 #include "macros.h"
+#include "stringify.h"
 
 namespace smash {
 
@@ -241,7 +242,7 @@ struct convert<einhard::LogLevel> {
    * \return Corresponding YAML node.
    */
   static Node encode(const einhard::LogLevel &x) {
-    return Node{einhard::getLogLevelString(x)};
+    return Node{smash::to_string(x)};
   }
 
   /**
-- 
2.43.0


From 50dcfb2a602d817baa99f607d33fd661f0ddc270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:26 +0000
Subject: [PATCH 42/86] fix: YAML aliases in the configuration shared their
 content

Taking, setting or removing a key via one alias silently changed all the others
and the anchored node.
---
 src/configuration.cc | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/configuration.cc b/src/configuration.cc
index e193ed5..b98bd2e 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -90,6 +90,27 @@ YAML::Node remove_empty_maps(YAML::Node root) {
   return root;
 }
 
+/**
+ * Copy a YAML::Node such that aliases become independent copies of the nodes
+ * they refer to. Otherwise changing or removing something via one of them would
+ * affect the others as well.
+ *
+ * \param[in] node YAML::Node possibly containing aliases.
+ * \return Copy of the node from above without aliases.
+ */
+YAML::Node copy_expanding_aliases(const YAML::Node &node) {
+  if (!node.IsMap()) {
+    return YAML::Clone(node);
+  }
+  YAML::Node result{YAML::NodeType::Map};
+  result.SetTag(node.Tag());
+  result.SetStyle(node.Style());
+  for (const auto &n : node) {
+    result.force_insert(YAML::Clone(n.first), copy_expanding_aliases(n.second));
+  }
+  return result;
+}
+
 /**
  * Merge two YAML::Nodes
  *
@@ -149,7 +170,7 @@ Configuration::Configuration(const std::filesystem::path &path,
         "line endings.");
   }
   try {
-    root_node_ = YAML::LoadFile(file_path.native());
+    root_node_ = copy_expanding_aliases(YAML::LoadFile(file_path.native()));
   } catch (YAML::ParserException &e) {
     if (e.msg == "illegal map value" || e.msg == "end of map not found") {
       const auto line = std::to_string(e.mark.line + 1);
@@ -200,7 +221,7 @@ Configuration::~Configuration() noexcept(false) {
 
 void Configuration::merge_yaml(const std::string &yaml) {
   try {
-    const YAML::Node to_be_merged = YAML::Load(yaml);
+    const YAML::Node to_be_merged = copy_expanding_aliases(YAML::Load(yaml));
     // A document without content does not contain anything to be merged
     if (to_be_merged.IsNull()) {
       return;
-- 
2.43.0


From 9e676b523b2cd4f75e5125ccd5b0f12d37691a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:36 +0000
Subject: [PATCH 43/86] fix: saturation density of nuclei with given
 deformation

It was the one of the spherical nucleus, such that the density did not
integrate to the number of nucleons. In turn, a saturation density specified
by the user was overwritten in case of automatic deformation.
---
 src/deformednucleus.cc      | 5 ++++-
 src/include/smash/nucleus.h | 3 +++
 src/nucleus.cc              | 1 +
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/deformednucleus.cc b/src/deformednucleus.cc
index 4f4b114..3a349e2 100644
--- a/src/deformednucleus.cc
+++ b/src/deformednucleus.cc
@@ -29,10 +29,13 @@ DeformedNucleus::DeformedNucleus(Configuration &config, int nTest,
     : Nucleus(config, nTest) {
   if (auto_deformation) {
     set_deformation_parameters_automatic();
-    set_saturation_density(calculate_saturation_density());
   } else {
     set_deformation_parameters_from_config(config);
   }
+  // The deformation changes the volume and hence the normalization
+  if (!is_saturation_density_given_) {
+    set_saturation_density(calculate_saturation_density());
+  }
   /* If the config does not contain (anymore) a target or a projectile
   sub-section, this code should not be executed, because e.g. the
   is_about_projectile function would fail. */
diff --git a/src/include/smash/nucleus.h b/src/include/smash/nucleus.h
index 7fd2b9b..18c0aab 100644
--- a/src/include/smash/nucleus.h
+++ b/src/include/smash/nucleus.h
@@ -292,6 +292,9 @@ class Nucleus {
   // Needed as public member for inheritance to deformed nuclei
   double saturation_density_ = nuclear_density;
 
+  /// Whether the saturation density has been specified by the user.
+  bool is_saturation_density_given_ = false;
+
   /**
    * Randomly generate Euler angles. Necessary for rotation of deformed and
    * custom nuclei, whenever a new nucleus of this kind is initialized.
diff --git a/src/nucleus.cc b/src/nucleus.cc
index 2c66eec..787ccf9 100644
--- a/src/nucleus.cc
+++ b/src/nucleus.cc
@@ -68,6 +68,7 @@ Nucleus::Nucleus(Configuration &config, int nTest) {
     diffusiveness_ = config.take(diffusiveness_key);
     nuclear_radius_ = config.take(radius_key);
     saturation_density_ = config.take(saturation_key);
+    is_saturation_density_given_ = true;
   } else if (!is_diffusiveness_given && !is_radius_given &&
              !is_saturation_given) {
     set_parameters_automatic();
-- 
2.43.0


From 1a5f042c5559420470842c264783aeb9edf4ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:36 +0000
Subject: [PATCH 44/86] fix: range of the radial sampling of deformed nuclei

The bound R / d + R * d is not a length. For large diffusiveness it cut off
the surface of the nucleus, for a vanishing one it was infinite.
---
 src/deformednucleus.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/deformednucleus.cc b/src/deformednucleus.cc
index 3a349e2..1d72fa9 100644
--- a/src/deformednucleus.cc
+++ b/src/deformednucleus.cc
@@ -6,6 +6,7 @@
  */
 #include "smash/deformednucleus.h"
 
+#include <algorithm>
 #include <cmath>
 #include <map>
 #include <stdexcept>
@@ -55,10 +56,15 @@ DeformedNucleus::DeformedNucleus(Configuration &config, int nTest,
 ThreeVector DeformedNucleus::distribute_nucleon() {
   double a_radius;
   Angles a_direction;
-  // Set a sensible maximum bound for radial sampling.
-  double radius_max =
-      Nucleus::get_nuclear_radius() / Nucleus::get_diffusiveness() +
-      Nucleus::get_nuclear_radius() * Nucleus::get_diffusiveness();
+  // Set a sensible maximum bound for radial sampling: the largest possible
+  // radius of the deformed surface and a tail with negligible density.
+  const double max_deformation =
+      1. + std::abs(beta2_) * std::sqrt(5. / (4. * M_PI)) +
+      std::abs(beta3_) * std::sqrt(7. / (4. * M_PI)) +
+      std::abs(beta4_) * std::sqrt(9. / (4. * M_PI));
+  const double radius_max =
+      Nucleus::get_nuclear_radius() * max_deformation +
+      15. * std::max(0., Nucleus::get_diffusiveness());
 
   // Sample the distribution.
   do {
-- 
2.43.0


From 00366f9383a68a26d3ade61eff237f8e34d04fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:24 +0000
Subject: [PATCH 45/86] fix: Fermi momenta of rotated nuclei

The local density of a deformed nucleus was evaluated without taking its
orientation into account.
---
 src/nucleus.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nucleus.cc b/src/nucleus.cc
index 787ccf9..ad43654 100644
--- a/src/nucleus.cc
+++ b/src/nucleus.cc
@@ -435,9 +435,12 @@ void Nucleus::generate_fermi_momenta() {
       }
       continue;
     }
-    const double r = (i->position() - nucleus_center).abs3();
-    const double theta = (i->position().threevec().get_theta());
-    const double phi = (i->position().threevec().get_phi());
+    ThreeVector pos = (i->position() - nucleus_center).threevec();
+    const double r = pos.abs();
+    // The density is known in the frame of the nucleus, i.e. before rotation
+    pos.rotate(-euler_psi_, -euler_theta_, -euler_phi_);
+    const double theta = pos.get_theta();
+    const double phi = pos.get_phi();
     double rho = nucleon_density(r, std::cos(theta), phi);
 
     if (i->pdgcode() == pdg::p) {
-- 
2.43.0


From 83101635df91e6b0aeeb689dd36373a12d462dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:24 +0000
Subject: [PATCH 46/86] fix: read the last nucleon of a file without newline at
 its end

The last line of a file with nuclei was dropped and replaced by the first one
if there is no newline character at the end of the file.
---
 src/customnucleus.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/customnucleus.cc b/src/customnucleus.cc
index cfff3bb..55eea65 100644
--- a/src/customnucleus.cc
+++ b/src/customnucleus.cc
@@ -180,9 +180,9 @@ std::vector<Nucleoncustom> CustomNucleus::readfile(
   std::vector<Nucleoncustom> custom_nucleus;
   // read in only A particles for one nucleus
   for (int i = 0; i < number_of_nucleons_; ++i) {
-    std::getline(infile, line);
     // make sure the stream goes back to the beginning when it hits end of file
-    if (infile.eof()) {
+    // (the last line might be without newline character)
+    if (!std::getline(infile, line) && infile.eof()) {
       infile.clear();
       infile.seekg(0, infile.beg);
       std::getline(infile, line);
-- 
2.43.0


From 84bf3412229349ca181eba8b128028cef729528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:24 +0000
Subject: [PATCH 47/86] fix: take test particles of custom nuclei into account

All test particles were considered as nucleons, with an accordingly larger
mass and radius of the nucleus.
---
 src/customnucleus.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/customnucleus.cc b/src/customnucleus.cc
index 55eea65..20c5f75 100644
--- a/src/customnucleus.cc
+++ b/src/customnucleus.cc
@@ -85,6 +85,8 @@ CustomNucleus::CustomNucleus(Configuration& config, int testparticles,
     used_filestream_ = &filestream_shared_;
   }
 
+  // Make the number of test particles known
+  Nucleus::fill_from_list(particle_list, testparticles);
   custom_nucleus_ = readfile(**used_filestream_);
   fill_from_list(custom_nucleus_);
   // Inherited from nucleus class (see nucleus.h)
-- 
2.43.0


From 518e9c9f05819ca95da164f474fee23908e789df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:24 +0000
Subject: [PATCH 48/86] fix: open the file shared by custom nuclei for every
 collider modus

The projectile is created first. If it kept a stream opened before, another
file would be ignored.
---
 src/customnucleus.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/customnucleus.cc b/src/customnucleus.cc
index 20c5f75..409e971 100644
--- a/src/customnucleus.cc
+++ b/src/customnucleus.cc
@@ -75,7 +75,7 @@ CustomNucleus::CustomNucleus(Configuration& config, int testparticles,
    */
   const std::string path =
       file_path(particle_list_file_directory, particle_list_file_name);
-  if (same_file && !filestream_shared_) {
+  if (same_file && (is_projectile || !filestream_shared_)) {
     filestream_shared_ = std::make_unique<std::ifstream>(path);
     used_filestream_ = &filestream_shared_;
   } else if (!same_file) {
-- 
2.43.0


From 5df6f47b8009268960afda028e96078a6ae598cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:24 +0000
Subject: [PATCH 49/86] fix: labels and spin vectors of the nucleons in every
 event

The nucleons of a custom nucleus are created anew for each event and then did
not belong to any nucleus. Spin vectors were never set in collisions, since
the spin interactions are not part of the configuration of a nucleus.
---
 src/collidermodus.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/collidermodus.cc b/src/collidermodus.cc
index 6e11e33..837d953 100644
--- a/src/collidermodus.cc
+++ b/src/collidermodus.cc
@@ -66,7 +66,6 @@ ColliderModus::ColliderModus(Configuration modus_config,
   if (projectile_->size() < 1) {
     throw ColliderEmpty("Input Error: Projectile nucleus is empty.");
   }
-  projectile_->set_label(BelongsTo::Projectile);
 
   // Set up the target nucleus
   if (targ_cfg.has_section(InputSections::m_c_t_deformed)) {
@@ -85,7 +84,6 @@ ColliderModus::ColliderModus(Configuration modus_config,
   if (target_->size() < 1) {
     throw ColliderEmpty("Input Error: Target nucleus is empty.");
   }
-  target_->set_label(BelongsTo::Target);
 
   // Get the Fermi-Motion input (off, on, frozen)
   fermi_motion_ = modus_cfg.take(InputKeys::modi_collider_fermiMotion);
@@ -509,8 +507,8 @@ ColliderModus::create_alphaclustered_nucleus(Configuration &nucleus_cfg,
   }
 }
 
-double ColliderModus::initial_conditions(Particles *particles,
-                                         const ExperimentParameters &) {
+double ColliderModus::initial_conditions(
+    Particles *particles, const ExperimentParameters &parameters) {
   // Populate the nuclei with appropriately distributed nucleons.
   // If deformed, this includes rotating the nucleus.
   projectile_->arrange_nucleons();
@@ -573,10 +571,20 @@ double ColliderModus::initial_conditions(Particles *particles,
   projectile_->shift(proj_z, +impact_ / 2.0, simulation_time);
   target_->shift(targ_z, -impact_ / 2.0, simulation_time);
 
+  // Label the nucleons in each event, as they might be created anew.
+  projectile_->set_label(BelongsTo::Projectile);
+  target_->set_label(BelongsTo::Target);
+
   // Put the particles in the nuclei into code particles.
   projectile_->copy_particles(particles);
   target_->copy_particles(particles);
   rotate_reaction_plane(phi, particles);
+  // The spin vector depends on the velocity, which is known only now.
+  if (parameters.spin_interaction_type != SpinInteractionType::Off) {
+    for (ParticleData &particle : *particles) {
+      particle.set_unpolarized_spin_vector();
+    }
+  }
   return simulation_time;
 }
 
-- 
2.43.0


From cd3aaa077c7cf44afe9850ad75a8a9396c5c8b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:24 +0000
Subject: [PATCH 50/86] fix: assertion in the sampling of flat impact parameter
 spectra

The largest yield is reached exactly if neighbouring yields are equal.
---
 src/collidermodus.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/collidermodus.cc b/src/collidermodus.cc
index 837d953..9d8e28f 100644
--- a/src/collidermodus.cc
+++ b/src/collidermodus.cc
@@ -19,6 +19,7 @@
 #include <vector>
 
 #include "smash/configuration.h"
+#include "smash/constants.h"
 #include "smash/customnucleus.h"
 #include "smash/experimentparameters.h"
 #include "smash/fluidizationaction.h"
@@ -618,7 +619,7 @@ void ColliderModus::sample_impact() {
       while (probability_random > probability) {
         b = random::uniform(imp_min_, imp_max_);
         probability = (*impact_interpolation_)(b) / yield_max_;
-        assert(probability < 1.);
+        assert(probability < 1. + really_small);
         probability_random = random::uniform(0., 1.);
       }
       impact_ = b;
-- 
2.43.0


From 6528878dfd915c266566511897bae8a304516bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:24 +0000
Subject: [PATCH 51/86] fix: refuse total energies below the mass

E_Tot smaller than the mass of a nucleon resulted in velocities which are not
a number.
---
 src/collidermodus.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/collidermodus.cc b/src/collidermodus.cc
index 9d8e28f..1156d02 100644
--- a/src/collidermodus.cc
+++ b/src/collidermodus.cc
@@ -228,6 +228,12 @@ ColliderModus::ColliderModus(Configuration modus_config,
         "Please provide only one of Sqrtsnn/E_Kin/P_Lab.");
   }
 
+  // A total energy can be smaller than the mass.
+  if (!(sqrt_s_NN_ >= mass_a + mass_b)) {
+    throw ModusDefault::InvalidEnergy(
+        "Input Error: The collision energy is smaller than the masses.");
+  }
+
   /* Impact parameter setting: Either "Value", "Range", "Max" or "Sample".
    * Unspecified means 0 impact parameter.*/
   if (modus_cfg.has_value(InputKeys::modi_collider_impact_value)) {
-- 
2.43.0


From 8afbc5b6583591abc424afeccfecda39e7addbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:04 +0000
Subject: [PATCH 52/86] fix: direction of the boost of unpolarized spin vectors

FourVector::lorentz_boost is a passive transformation. The spin vector was
boosted to a frame in which the particle moves even faster, and was hence not
orthogonal to the momentum.
---
 src/particledata.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particledata.cc b/src/particledata.cc
index 9fcff05..941afb7 100644
--- a/src/particledata.cc
+++ b/src/particledata.cc
@@ -119,7 +119,7 @@ void ParticleData::set_unpolarized_spin_vector() {
                                    random::normal(mean, sigma));
 
   // Boost the spin vector from rest frame to lab frame
-  spin_vector_ = rest_frame_spin.lorentz_boost(v);
+  spin_vector_ = rest_frame_spin.lorentz_boost(-v);
 }
 
 double ParticleData::xsec_scaling_factor(double delta_time) const {
-- 
2.43.0


From fb853e3cabd2af661003e13f3cfa42d5c253efb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:08 +0000
Subject: [PATCH 53/86] fix: buffers too small for numbers with three digits in
 the exponent

---
 src/include/smash/outputformatter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/smash/outputformatter.h b/src/include/smash/outputformatter.h
index b70339b..c4e3203 100644
--- a/src/include/smash/outputformatter.h
+++ b/src/include/smash/outputformatter.h
@@ -62,7 +62,7 @@ struct ToASCII {
    * \param[in] value number to convert
    */
   type as_double(double value) {
-    constexpr size_t kBufferSize = 13;
+    constexpr size_t kBufferSize = 14;  // e.g. "-1.23457e-100"
     char buffer[kBufferSize];
     const auto length = std::snprintf(buffer, kBufferSize, "%g", value);
     assert(static_cast<size_t>(length) < kBufferSize);
@@ -85,7 +85,7 @@ struct ToASCII {
    * \param[in] value number to convert
    */
   type as_precise_double(double value) {
-    constexpr size_t kBufferSize = 16;
+    constexpr size_t kBufferSize = 17;  // e.g. "-1.23456789e-100"
     char buffer[kBufferSize];
     const auto length = std::snprintf(buffer, kBufferSize, "%.9g", value);
     assert(static_cast<size_t>(length) < kBufferSize);
-- 
2.43.0


From 450e9ee4355fac5669b6ec0945b50fc28ceaeefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:45 +0000
Subject: [PATCH 54/86] fix: binary dilepton and photon output contained all
 particles

If Print_Start_End was requested for the collisions output, the binary
dilepton and photon outputs contained the initial and final particles, too.
---
 src/binaryoutput.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/binaryoutput.cc b/src/binaryoutput.cc
index 362c11a..a15b59f 100644
--- a/src/binaryoutput.cc
+++ b/src/binaryoutput.cc
@@ -265,7 +265,9 @@ BinaryOutputCollisions::BinaryOutputCollisions(
     const OutputParameters &out_par, const std::vector<std::string> &quantities)
     : BinaryOutputBase(path / get_binary_filename(name, quantities), "wb", name,
                        quantities),
-      print_start_end_(out_par.coll_printstartend) {}
+      // The key only refers to the collisions output; this class is also used
+      // for dileptons and photons
+      print_start_end_(name == "Collisions" && out_par.coll_printstartend) {}
 
 void BinaryOutputCollisions::at_eventstart(const Particles &particles,
                                            const EventLabel &event_label,
-- 
2.43.0


From 948d0b067e86cd1d60baf27975e56c32f85b9529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:36 +0000
Subject: [PATCH 55/86] fix: recognize the end of an event at the end of a line

The example in the user guide and the initial conditions output mark it with
"# event 0 end", whereas only " end " with a trailing space was recognized.
All events of a file were hence merged into one.
---
 src/listmodus.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/listmodus.cc b/src/listmodus.cc
index 25a30f9..9155704 100644
--- a/src/listmodus.cc
+++ b/src/listmodus.cc
@@ -363,10 +363,19 @@ std::string ListModus::next_event_() {
   // read one event. events marked by line # event end i in case of Oscar
   // output. Assume one event per file for all other output formats
   std::string event_string{};
-  const std::string needle = " end ";
+  const std::string needle = " end";
+  auto is_end_of_event = [&needle](const std::string &s) {
+    const auto position = s.find(needle);
+    if (position == std::string::npos) {
+      return false;
+    }
+    // The end of the event might be all the line says
+    const auto next = position + needle.size();
+    return next == s.size() || s[next] == ' ' || s[next] == '\r';
+  };
   std::string line{};
   while (getline(ifs, line)) {
-    if (line.find(needle) == std::string::npos) {
+    if (!is_end_of_event(line)) {
       event_string += line + "\n";
     } else {
       break;
-- 
2.43.0


From 97d71319ff48021ec10dee90da3445ec2e50c442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:36 +0000
Subject: [PATCH 56/86] fix: particle lists of a few lines without comments

Files with up to four particles and without comments were considered to
contain no event, and hence skipped without notice or refused. On the other
hand, several blank lines at the end of a file gave rise to another, empty
event.
---
 src/listmodus.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/listmodus.cc b/src/listmodus.cc
index 9155704..7822515 100644
--- a/src/listmodus.cc
+++ b/src/listmodus.cc
@@ -407,12 +407,11 @@ bool ListModus::file_has_events_(std::filesystem::path filepath,
     return false;
   }
   ifs.seekg(last_position);
-  // skip over comment lines, assume that a max. of four consecutive comment
-  // lines can occur
-  int skipped_lines = 0;
-  const int max_comment_lines = 4;
-  while (std::getline(ifs, line) && line[0] != '#' &&
-         skipped_lines++ < max_comment_lines) {
+  // any line which is not blank belongs to a further event
+  while (std::getline(ifs, line)) {
+    if (line.find_first_not_of(" \t\r") != std::string::npos) {
+      return true;
+    }
   }
 
   if (ifs.eof()) {
-- 
2.43.0


From a96629baa54abffe8700ec7a0abf400e53fb4d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:36 +0000
Subject: [PATCH 57/86] fix: comparison of positions in particle lists

They were compared after rounding to 6 decimal places, such that different
positions were refused. The sign of a zero or of a tiny number made equal
positions differ, in turn.
---
 src/listmodus.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/listmodus.cc b/src/listmodus.cc
index 7822515..3eea9c1 100644
--- a/src/listmodus.cc
+++ b/src/listmodus.cc
@@ -542,24 +542,24 @@ static bool is_list_of_particles_invalid(const Particles &particles,
    * using their position as a key. However, to do so, the operator< of the
    * FourVector class is not suitable since in a std::map, by default, two keys
    * a and b are considered equivalent if !(a<b) && !(b<a). Therefore we convert
-   * the 4-postion to a string and use this as key. Note that this should also
-   * work in the case in which the file contains apparently different positions,
-   * i.e. with differences in the decimals beyond double precision. At this
-   * point the file has been already read and the 4-positions are stored in
-   * double position. */
-  auto to_string = [](const FourVector &v) {
-    return "(" + std::to_string(v[0]) + ", " + std::to_string(v[1]) + ", " +
-           std::to_string(v[2]) + ", " + std::to_string(v[3]) + ")";
+   * the 4-postion to an array and use this as key, which is compared
+   * lexicographically. Note that this should also work in the case in which the
+   * file contains apparently different positions, i.e. with differences in the
+   * decimals beyond double precision. At this point the file has been already
+   * read and the 4-positions are stored in double position. */
+  auto to_array = [](const FourVector &v) {
+    return std::array<double, 4>{v[0], v[1], v[2], v[3]};
   };
-  std::map<std::string, int> checker{};
+  std::map<std::array<double, 4>, int> checker{};
   for (const auto &p : particles) {
-    checker[to_string(p.position())]++;
+    checker[to_array(p.position())]++;
   }
   bool error_found = false;
   for (const auto &[key, value] : checker) {
     if (value > 2) {
       logg[LList].error() << "Event " << event << ": Found " << value
-                          << " particles at same position " << key;
+                          << " particles at same position (" << key[0] << ", "
+                          << key[1] << ", " << key[2] << ", " << key[3] << ")";
       error_found = true;
     }
   }
-- 
2.43.0


From 457eb976e8085701a9759ceb12c574fc480908c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:31 +0000
Subject: [PATCH 58/86] fix: particles far away from the box of a particle list

They were moved by one length of the box only and might have remained outside,
where no cell of the grid exists.
---
 src/listmodus.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/listmodus.cc b/src/listmodus.cc
index 3eea9c1..67fb698 100644
--- a/src/listmodus.cc
+++ b/src/listmodus.cc
@@ -512,8 +512,16 @@ int ListBoxModus::impose_boundary_conditions(Particles *particles,
   int wraps = 0;
   for (ParticleData &data : *particles) {
     FourVector position = data.position();
-    bool wall_hit = enforce_periodic_boundaries(position.begin() + 1,
-                                                position.end(), length_);
+    bool wall_hit = false;
+    // Particles of a list might be more than one length away from the box
+    for (auto x = position.begin() + 1; x != position.end(); ++x) {
+      if (std::abs(*x) > length_) {
+        *x = std::fmod(*x, length_);
+        wall_hit = true;
+      }
+    }
+    wall_hit |= enforce_periodic_boundaries(position.begin() + 1,
+                                            position.end(), length_);
     if (wall_hit) {
       const ParticleData incoming_particle(data);
       data.set_4position(position);
-- 
2.43.0


From ac9f8e0bae3aaef09bd48d66533d6dfe1ffee80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:42 +0000
Subject: [PATCH 59/86] fix: empty lines with Windows line endings in input
 files

---
 src/inputfunctions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inputfunctions.cc b/src/inputfunctions.cc
index b5757fb..9f14fd7 100644
--- a/src/inputfunctions.cc
+++ b/src/inputfunctions.cc
@@ -33,7 +33,7 @@ std::vector<Line> line_parser(const std::string &input) {
       // Found a comment, remove it from the line and look further
       line = line.substr(0, hash_pos);
     }
-    if (line.find_first_not_of(" \t") == std::string::npos) {
+    if (line.find_first_not_of(" \t\r") == std::string::npos) {
       // Only whitespace (or nothing) on this line. Next, please.
       continue;
     }
-- 
2.43.0


From d781cf2ff5782e139951144e0a89505772cdc561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:39 +0000
Subject: [PATCH 60/86] fix: energy density of a hadron gas at low temperatures

It vanished as soon as the contribution of any species did.
---
 src/hadgas_eos.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hadgas_eos.cc b/src/hadgas_eos.cc
index 959ac9b..e14a058 100644
--- a/src/hadgas_eos.cc
+++ b/src/hadgas_eos.cc
@@ -293,7 +293,7 @@ double HadronGasEos::energy_density(double T, double mub, double mus,
     double x = beta * (mub * ptype.baryon_number() + mus * ptype.strangeness() +
                        muq * ptype.charge() - ptype.mass());
     if (x < -500.0) {
-      return 0.0;
+      continue;
     }
     x = std::exp(x);
     const size_t g = ptype.spin() + 1;
-- 
2.43.0


From 94619016b5ac85f6483d328b8f5b99a6c979c801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:52 +0000
Subject: [PATCH 61/86] fix: maximum search in the sampling of thermal masses

The second iteration looked for the maximum in an interval which need not
contain it. The masses around an overlooked maximum were too rare, e.g. those
close to the threshold at low temperatures.
---
 src/hadgas_eos.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hadgas_eos.cc b/src/hadgas_eos.cc
index e14a058..de08919 100644
--- a/src/hadgas_eos.cc
+++ b/src/hadgas_eos.cc
@@ -423,8 +423,9 @@ double HadronGasEos::sample_mass_thermal(const ParticleType &ptype,
           m_where_max = m;
         }
       }
-      m_lower = m_where_max - (m_where_max - m_lower) * 0.1;
-      m_upper = m_where_max + (m_upper - m_where_max) * 0.1;
+      // The maximum is between the neighboring points
+      m_lower = std::max(mth, m_where_max - dm);
+      m_upper = std::min(max_mass, m_where_max + dm);
     }
     // Safety factor
     max_ratio *= 1.5;
-- 
2.43.0


From cf8a16d9c271c2308750540340ab6636d52c339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:50 +0000
Subject: [PATCH 62/86] fix: solve for the hadron gas state at tiny net charge
 densities

The solver was stuck at the initial approximation if a net charge density, and
hence a chemical potential, differed from zero by rounding.
---
 src/hadgas_eos.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/hadgas_eos.cc b/src/hadgas_eos.cc
index de08919..5e5f14e 100644
--- a/src/hadgas_eos.cc
+++ b/src/hadgas_eos.cc
@@ -594,10 +594,15 @@ std::array<double, 4> HadronGasEos::solve_eos(
   gsl_multiroot_function f = {&HadronGasEos::set_eos_solver_equations,
                               n_equations_, &p};
 
+  /* The solver obtains derivatives by changing each variable by a tiny fraction
+   * of itself, unless it is zero. Chemical potentials which only differ from
+   * zero by rounding would hence make the system of equations singular. */
+  constexpr double negligible_mu = 1.e-6;
   gsl_vector_set(x_, 0, initial_approximation[0]);
-  gsl_vector_set(x_, 1, initial_approximation[1]);
-  gsl_vector_set(x_, 2, initial_approximation[2]);
-  gsl_vector_set(x_, 3, initial_approximation[3]);
+  for (size_t i = 1; i < n_equations_; i++) {
+    const double mu = initial_approximation[i];
+    gsl_vector_set(x_, i, std::abs(mu) < negligible_mu ? 0.0 : mu);
+  }
 
   gsl_multiroot_fsolver_set(solver_, &f, x_);
   do {
-- 
2.43.0


From 330e0e5be460879792db3f8db510113d45e8beca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:13 +0000
Subject: [PATCH 63/86] fix: charge density in the rest frame of a
 thermalization cell

---
 src/grandcan_thermalizer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/grandcan_thermalizer.cc b/src/grandcan_thermalizer.cc
index 7273993..3988cfd 100644
--- a/src/grandcan_thermalizer.cc
+++ b/src/grandcan_thermalizer.cc
@@ -54,10 +54,10 @@ void ThermLatticeNode::compute_rest_frame_quantities(HadronGasEos &eos) {
     }
     const double gamma_inv = std::sqrt(1.0 - v_.sqr());
     EosTable::table_element tabulated;
-    eos.from_table(tabulated, e_, gamma_inv * nb_, nq_);
+    eos.from_table(tabulated, e_, gamma_inv * nb_, gamma_inv * nq_);
     if (!eos.is_tabulated() || tabulated.p < 0.0) {
-      auto T_mub_mus_muq =
-          eos.solve_eos(e_, gamma_inv * nb_, gamma_inv * ns_, nq_);
+      auto T_mub_mus_muq = eos.solve_eos(
+          e_, gamma_inv * nb_, gamma_inv * ns_, gamma_inv * nq_);
       T_ = T_mub_mus_muq[0];
       mub_ = T_mub_mus_muq[1];
       mus_ = T_mub_mus_muq[2];
-- 
2.43.0


From 71d4344e2fa2e4281c56a44691f5058cafccdbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:49 +0000
Subject: [PATCH 64/86] fix: total momentum of a sphere with radial flow

---
 src/spheremodus.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spheremodus.cc b/src/spheremodus.cc
index 6778a72..6cae8cd 100644
--- a/src/spheremodus.cc
+++ b/src/spheremodus.cc
@@ -254,6 +254,7 @@ double SphereModus::initial_conditions(Particles *particles,
    * u_r = u_0 * (r / R)^n
    */
   if (radial_velocity_ > 0.0) {
+    momentum_total = FourVector(0, 0, 0, 0);
     for (ParticleData &data : *particles) {
       double particle_radius = std::sqrt(data.position().sqr3());
       auto e_r = data.position().threevec() / particle_radius;
-- 
2.43.0


From 9e38e9d5f06248648349bdc1fd08cba952a02542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:08 +0000
Subject: [PATCH 65/86] fix: spin vectors of the particles in a sphere

---
 src/include/smash/spheremodus.h |  2 --
 src/spheremodus.cc              | 18 +++++++++++-------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/include/smash/spheremodus.h b/src/include/smash/spheremodus.h
index 53fb816..636d35f 100644
--- a/src/include/smash/spheremodus.h
+++ b/src/include/smash/spheremodus.h
@@ -170,8 +170,6 @@ class SphereModus : public ModusDefault {
    * user if jet_back_ is true
    */
   const double jet_back_separation_ = smash_NaN<double>;
-  /// Spin interaction type
-  const SpinInteractionType spin_interaction_type_;
   /**\ingroup logging
    * Writes the initial state for the Sphere to the output stream.
    *
diff --git a/src/spheremodus.cc b/src/spheremodus.cc
index 6cae8cd..a18eedb 100644
--- a/src/spheremodus.cc
+++ b/src/spheremodus.cc
@@ -74,9 +74,7 @@ SphereModus::SphereModus(Configuration modus_config,
       jet_back_separation_(
           jet_back_ ? modus_config.take(
                           InputKeys::modi_sphere_jet_backToBackSeparation)
-                    : 0),
-      spin_interaction_type_(
-          modus_config.take(InputKeys::collTerm_spinInteractions)) {
+                    : 0) {
   if (!jet_back_ &&
       modus_config.has_value(InputKeys::modi_sphere_jet_backToBackSeparation)) {
     throw std::invalid_argument(
@@ -272,7 +270,7 @@ double SphereModus::initial_conditions(Particles *particles,
     data.set_4momentum(data.momentum().abs(),
                        data.momentum().threevec() -
                            momentum_total.threevec() / particles->size());
-    if (spin_interaction_type_ != SpinInteractionType::Off) {
+    if (parameters.spin_interaction_type != SpinInteractionType::Off) {
       data.set_unpolarized_spin_vector();
     }
   }
@@ -287,6 +285,12 @@ double SphereModus::initial_conditions(Particles *particles,
         FourVector(start_time_, jet_pos_ + displacement));
     jet_particle.set_4momentum(ParticleType::find(pdg).mass(),
                                ThreeVector(jet_mom_, 0., 0.));
+    const bool with_spin =
+        parameters.spin_interaction_type != SpinInteractionType::Off;
+    if (with_spin) {
+      jet_particle.set_unpolarized_spin_vector();
+    }
+    /* Creating the antiparticle may invalidate the reference to the particle */
     if (jet_back_) {
       auto &anti_pdg = pdg.has_antiparticle() ? pdg.get_antiparticle() : pdg;
       auto &jet_antiparticle = particles->create(anti_pdg);
@@ -295,9 +299,9 @@ double SphereModus::initial_conditions(Particles *particles,
           FourVector(start_time_, jet_pos_ - displacement));
       jet_antiparticle.set_4momentum(ParticleType::find(anti_pdg).mass(),
                                      ThreeVector(-jet_mom_, 0., 0.));
-    }
-    if (spin_interaction_type_ != SpinInteractionType::Off) {
-      jet_particle.set_unpolarized_spin_vector();
+      if (with_spin) {
+        jet_antiparticle.set_unpolarized_spin_vector();
+      }
     }
   }
 
-- 
2.43.0


From 74ebea801f4c0f96f16c79eed80bb6b451144308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:08 +0000
Subject: [PATCH 66/86] fix: jet in the center of the box

---
 src/boxmodus.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/boxmodus.cc b/src/boxmodus.cc
index 2b3cf95..0308aed 100644
--- a/src/boxmodus.cc
+++ b/src/boxmodus.cc
@@ -207,7 +207,9 @@ double BoxModus::initial_conditions(Particles *particles,
   if (jet_pdg_) {
     auto &jet_particle = particles->create(jet_pdg_.value());
     jet_particle.set_formation_time(start_time_);
-    jet_particle.set_4position(FourVector(start_time_, 0., 0., 0.));
+    const double center = 0.5 * length_;
+    jet_particle.set_4position(
+        FourVector(start_time_, center, center, center));
     jet_particle.set_4momentum(ParticleType::find(jet_pdg_.value()).mass(),
                                ThreeVector(jet_mom_, 0., 0.));
     if (parameters.spin_interaction_type != SpinInteractionType::Off) {
-- 
2.43.0


From e3f690679e877ceacad25abdf714edf5dd312eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:08 +0000
Subject: [PATCH 67/86] fix: refuse quantum momenta with thermal multiplicities

---
 src/boxmodus.cc    | 6 ++++++
 src/spheremodus.cc | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/boxmodus.cc b/src/boxmodus.cc
index 0308aed..3ae77b5 100644
--- a/src/boxmodus.cc
+++ b/src/boxmodus.cc
@@ -99,6 +99,12 @@ BoxModus::BoxModus(Configuration modus_config,
     throw std::invalid_argument(
         "Resonance lifetime modifier cannot be negative!");
   }
+  if (use_thermal_ &&
+      initial_condition_ == BoxInitialCondition::ThermalMomentaQuantum) {
+    throw std::invalid_argument(
+        "Quantum momentum distributions require 'Init_Multiplicities' and "
+        "cannot be combined with 'Use_Thermal_Multiplicities'.");
+  }
   // Check consistency, just in case
   if (std::abs(length_ - parameters.box_length) > really_small) {
     throw std::runtime_error("Box length inconsistency");
diff --git a/src/spheremodus.cc b/src/spheremodus.cc
index a18eedb..8f7d7a4 100644
--- a/src/spheremodus.cc
+++ b/src/spheremodus.cc
@@ -81,6 +81,12 @@ SphereModus::SphereModus(Configuration modus_config,
         "In order to specify 'Back_To_Back_Separation', 'Back_To_Back' must be "
         "true.");
   }
+  if (use_thermal_ &&
+      init_distr_ == SphereInitialCondition::ThermalMomentaQuantum) {
+    throw std::invalid_argument(
+        "Quantum momentum distributions require 'Init_Multiplicities' and "
+        "cannot be combined with 'Use_Thermal_Multiplicities'.");
+  }
   if (radial_velocity_ > 1.0) {
     throw std::invalid_argument(
         "Additional velocity cannot be greater than 1!");
-- 
2.43.0


From ecee79ac5b0aee5e361379e9b655e2f0c57610c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:30 +0000
Subject: [PATCH 68/86] fix: momenta of heavy particles out of equilibrium

---
 src/distributions.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/distributions.cc b/src/distributions.cc
index 7cecb30..f9b5296 100644
--- a/src/distributions.cc
+++ b/src/distributions.cc
@@ -90,8 +90,9 @@ double sample_momenta_non_eq_mass(const double temperature, const double mass) {
   /* Calculate range on momentum values to use
    * ideally 0.0 and as large as possible but we want to be efficient! */
   const double mom_min = 0.0;
+  // the kinetic energy is limited, so that heavy particles are possible
   const double mom_max =
-      std::sqrt(50. * 50. * temperature * temperature - mass * mass);
+      std::sqrt(50. * temperature * (50. * temperature + 2. * mass));
   /* Calculate momentum and energy values that will give
    * maxima of density_integrand_mass, verified by differentiation */
   const double p_non_eq_sq =
-- 
2.43.0


From c2ae8439cc468fc56ef6f55b78238a45fd4c68e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:37 +0000
Subject: [PATCH 69/86] fix: scattering angle of 2 -> 2 photon production

The polar angle belonging to the sampled Mandelstam t was taken with respect
to the z axis of the center-of-mass frame instead of the collision axis. Hence,
the weight did not belong to the momentum of the produced photon, unless the
collision was along the z axis.
---
 src/scatteractionphoton.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/scatteractionphoton.cc b/src/scatteractionphoton.cc
index a70854c..fa62425 100644
--- a/src/scatteractionphoton.cc
+++ b/src/scatteractionphoton.cc
@@ -247,9 +247,14 @@ void ScatterActionPhoton::generate_final_state() {
       costheta = -1.0;
   }
   Angles phitheta(random::uniform(0.0, twopi), costheta);
+  // the scattering angle is the one between incoming pion and outgoing hadron
+  ThreeVector collision_axis =
+      incoming_particles_[0].momentum().lorentz_boost(beta_cm()).threevec();
+  ThreeVector pout_direction = phitheta.threevec();
+  pout_direction.rotate_z_axis_to(collision_axis);
   outgoing_particles_[0].set_4momentum(hadron_out_mass_,
-                                       phitheta.threevec() * pcm_out);
-  outgoing_particles_[1].set_4momentum(0.0, -phitheta.threevec() * pcm_out);
+                                       pout_direction * pcm_out);
+  outgoing_particles_[1].set_4momentum(0.0, -pout_direction * pcm_out);
 
   // Set positions & boost to computational frame.
   for (ParticleData &new_particle : outgoing_particles_) {
-- 
2.43.0


From f13896c805c455f8696d033c0da2def0a7cef4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:37 +0000
Subject: [PATCH 70/86] fix: formation time of the particles from 2 -> 2 photon
 production

It was never set, such that the extended output contained nan.
---
 src/scatteractionphoton.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scatteractionphoton.cc b/src/scatteractionphoton.cc
index fa62425..7247525 100644
--- a/src/scatteractionphoton.cc
+++ b/src/scatteractionphoton.cc
@@ -258,6 +258,8 @@ void ScatterActionPhoton::generate_final_state() {
 
   // Set positions & boost to computational frame.
   for (ParticleData &new_particle : outgoing_particles_) {
+    // assuming outgoing particles are always fully formed
+    new_particle.set_formation_time(time_of_execution_);
     new_particle.set_4position(middle_point);
     new_particle.boost_momentum(
         -total_momentum_of_outgoing_particles().velocity());
-- 
2.43.0


From 11642d8bc50e09290a58fc4b6a2efdbc735ac23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:37 +0000
Subject: [PATCH 71/86] fix: momentum of bremsstrahlung photons

The energy of the pion pair was used as its invariant mass. Thus, the momentum
of the photon in the center-of-mass frame was k - k^2 / (2 sqrt(s)) instead of
the sampled k, for which the differential cross section is evaluated.
---
 src/bremsstrahlungaction.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/bremsstrahlungaction.cc b/src/bremsstrahlungaction.cc
index bc9c632..665ca8b 100644
--- a/src/bremsstrahlungaction.cc
+++ b/src/bremsstrahlungaction.cc
@@ -9,6 +9,8 @@
 
 #include "smash/bremsstrahlungaction.h"
 
+#include <algorithm>
+
 #include "smash/crosssectionsbrems.h"
 #include "smash/outputinterface.h"
 #include "smash/random.h"
@@ -95,10 +97,9 @@ void BremsstrahlungAction::generate_final_state() {
   // minimum cutoff for k to be in accordance with cross section calculations
   double delta_k;  // k-range
   double k_min = 0.001;
-  double k_max =
-      (sqrt_s() * sqrt_s() - 2 * outgoing_particles_[0].type().mass() * 2 *
-                                 outgoing_particles_[1].type().mass()) /
-      (2 * sqrt_s());
+  const double m_pions = outgoing_particles_[0].type().mass() +
+                         outgoing_particles_[1].type().mass();
+  double k_max = (sqrt_s() * sqrt_s() - m_pions * m_pions) / (2 * sqrt_s());
 
   if ((k_max - k_min) < 0.0) {
     // Make sure it is kinematically even possible to create a photon that is
@@ -155,16 +156,17 @@ void BremsstrahlungAction::sample_3body_phasespace() {
                m_b = outgoing_particles_[1].type().mass(),
                m_c = outgoing_particles_[2].type().mass();
   const double sqrts = sqrt_s();
-  const double E_ab = sqrts - m_c - k_;  // Ekin of the pion pair in cm frame
-  const double pcm = pCM(sqrts, E_ab, m_c);  // cm momentum of (π pair - photon)
-  const double pcm_pions = pCM(E_ab, m_a, m_b);  // cm momentum within pion pair
+  const double pcm = k_;  // cm momentum of (π pair - photon)
+  // invariant mass of the pion pair recoiling against a photon of momentum k_
+  const double m_ab = std::max(std::sqrt(sqrts * (sqrts - 2. * k_)), m_a + m_b);
+  const double pcm_pions = pCM(m_ab, m_a, m_b);  // cm momentum within pion pair
 
   // Photon angle: Phi random, theta from theta_ sampled above
   const Angles phitheta_photon(random::uniform(0.0, twopi), std::cos(theta_));
   outgoing_particles_[2].set_4momentum(m_c, pcm * phitheta_photon.threevec());
   // Boost velocity to cm frame of the two pions
   const ThreeVector beta_cm_pion_pair_photon =
-      pcm * phitheta_photon.threevec() / std::sqrt(pcm * pcm + E_ab * E_ab);
+      pcm * phitheta_photon.threevec() / std::sqrt(pcm * pcm + m_ab * m_ab);
 
   // Sample pion pair isotropically
   Angles phitheta;
-- 
2.43.0


From 718ef0dd20c08f8e70d57e2b1e3b5e24c81a24a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:37 +0000
Subject: [PATCH 72/86] fix: polar angle of bremsstrahlung photons

It was taken with respect to the z axis of the center-of-mass frame instead of
the collision axis.
---
 src/bremsstrahlungaction.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/bremsstrahlungaction.cc b/src/bremsstrahlungaction.cc
index 665ca8b..73a1228 100644
--- a/src/bremsstrahlungaction.cc
+++ b/src/bremsstrahlungaction.cc
@@ -162,11 +162,21 @@ void BremsstrahlungAction::sample_3body_phasespace() {
   const double pcm_pions = pCM(m_ab, m_a, m_b);  // cm momentum within pion pair
 
   // Photon angle: Phi random, theta from theta_ sampled above
+  // with respect to the collision axis, i.e. the direction of the first pion,
+  // or of the charged one if there is only one
   const Angles phitheta_photon(random::uniform(0.0, twopi), std::cos(theta_));
-  outgoing_particles_[2].set_4momentum(m_c, pcm * phitheta_photon.threevec());
+  const bool second_pion = incoming_particles_[0].type().charge() == 0 &&
+                           incoming_particles_[1].type().charge() != 0;
+  ThreeVector collision_axis = incoming_particles_[second_pion ? 1 : 0]
+                                   .momentum()
+                                   .lorentz_boost(beta_cm())
+                                   .threevec();
+  ThreeVector photon_direction = phitheta_photon.threevec();
+  photon_direction.rotate_z_axis_to(collision_axis);
+  outgoing_particles_[2].set_4momentum(m_c, pcm * photon_direction);
   // Boost velocity to cm frame of the two pions
   const ThreeVector beta_cm_pion_pair_photon =
-      pcm * phitheta_photon.threevec() / std::sqrt(pcm * pcm + m_ab * m_ab);
+      pcm * photon_direction / std::sqrt(pcm * pcm + m_ab * m_ab);
 
   // Sample pion pair isotropically
   Angles phitheta;
-- 
2.43.0


From ba3341bb5adf5652e5295bec90e05573eedf4820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:37 +0000
Subject: [PATCH 73/86] fix: order of the pions in pi0 + pi -> rho + photon

The differential cross section is not symmetric in t and u, but peaks for
photons in the direction of the charged pion, which has to be the second one.
Otherwise, they peaked in the direction of the neutral pion.
---
 src/scatteractionphoton.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scatteractionphoton.cc b/src/scatteractionphoton.cc
index 7247525..60416fc 100644
--- a/src/scatteractionphoton.cc
+++ b/src/scatteractionphoton.cc
@@ -206,9 +206,13 @@ void ScatterActionPhoton::generate_final_state() {
   // t is defined to be the momentum exchanged between the rho meson and the
   // photon in pi + rho -> pi + photon channel. Therefore,
   // get_t_range needs to be called with m2 being the rho mass instead of the
-  // pion mass. So, particles 1 and 2 are swapped if necessary.
+  // pion mass. So, particles 1 and 2 are swapped if necessary. Analogously, t
+  // refers to the charged pion in pi0 + pi -> rho + photon.
 
-  if (!incoming_particles_[0].pdgcode().is_pion()) {
+  if (!incoming_particles_[0].pdgcode().is_pion() ||
+      ((reac_ == ReactionType::pi_z_pi_p_rho_p ||
+        reac_ == ReactionType::pi_z_pi_m_rho_m) &&
+       incoming_particles_[0].type().charge() != 0)) {
     std::swap(incoming_particles_[0], incoming_particles_[1]);
   }
 
-- 
2.43.0


From 02add427c3225982605bf128829ddb3c2271ee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:30 +0000
Subject: [PATCH 74/86] fix: hypersurface crossings of particles from negative
 times

Particles at t < -|z| were considered to be in the forward light cone, such
that the crossing of the hypersurface was missed if it was within a time step
starting there, in particular without time steps.
---
 src/hypersurfacecrossingfinder.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/hypersurfacecrossingfinder.cc b/src/hypersurfacecrossingfinder.cc
index 0c23bef..c050b67 100644
--- a/src/hypersurfacecrossingfinder.cc
+++ b/src/hypersurfacecrossingfinder.cc
@@ -120,12 +120,12 @@ bool HyperSurfaceCrossActionsFinder::crosses_hypersurface(
     ParticleData &pdata_after_propagation, const double tau) const {
   bool hypersurface_is_crossed = false;
   const bool t_greater_z_before_prop =
-      (std::fabs(pdata_before_propagation.position().x0()) >
+      (pdata_before_propagation.position().x0() >
                std::fabs(pdata_before_propagation.position().x3())
            ? true
            : false);
   const bool t_greater_z_after_prop =
-      (std::fabs(pdata_after_propagation.position().x0()) >
+      (pdata_after_propagation.position().x0() >
                std::fabs(pdata_after_propagation.position().x3())
            ? true
            : false);
@@ -166,15 +166,11 @@ FourVector HyperSurfaceCrossActionsFinder::coordinates_on_hypersurface(
   const double n = z1 - m * t1;
 
   // The equation to solve is a quadratic equation which provides two solutions,
-  // the latter is usually out of the t-interval we are looking at.
+  // the latter is on the hypersurface in the backward light cone.
   const double sol1 = n * m / (1 - m * m) +
                       std::sqrt((1 - m * m) * tau * tau + n * n) / (1 - m * m);
-  [[maybe_unused]] const double sol2 =  // only used in DEBUG output
-      n * m / (1 - m * m) -
-      std::sqrt((1 - m * m) * tau * tau + n * n) / (1 - m * m);
 
   assert((sol1 >= t1 && sol1 <= t2));
-  assert(!(sol2 >= t1 && sol2 <= t2));
 
   // Propagate to point where hypersurface is crossed
   const ThreeVector v = pdata_before_propagation.velocity();
-- 
2.43.0


From 29ca9be3527cb05fa5188a28261123027419b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:30 +0000
Subject: [PATCH 75/86] fix: position on the hypersurface with frozen Fermi
 motion

The time of the crossing was determined with the beam velocity, but the
position with the velocity including Fermi motion. Thus, the position was not
on the hypersurface.
---
 src/hypersurfacecrossingfinder.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hypersurfacecrossingfinder.cc b/src/hypersurfacecrossingfinder.cc
index c050b67..292c551 100644
--- a/src/hypersurfacecrossingfinder.cc
+++ b/src/hypersurfacecrossingfinder.cc
@@ -173,7 +173,10 @@ FourVector HyperSurfaceCrossActionsFinder::coordinates_on_hypersurface(
   assert((sol1 >= t1 && sol1 <= t2));
 
   // Propagate to point where hypersurface is crossed
-  const ThreeVector v = pdata_before_propagation.velocity();
+  // (the velocity is not the one of the particle for frozen Fermi motion)
+  const ThreeVector v = (pdata_after_propagation.position().threevec() -
+                         pdata_before_propagation.position().threevec()) /
+                        (t2 - t1);
   const FourVector distance = FourVector(0.0, v * (sol1 - t1));
   FourVector crossing_position = pdata_before_propagation.position() + distance;
   crossing_position.set_x0(sol1);
-- 
2.43.0


From 1e4ddec6ac9f303128abbf0442cf5da724182d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:30 +0000
Subject: [PATCH 76/86] fix: smearing kernel for dynamic initial conditions

The value of the Gaussian at its center was only correct for a width of 1 fm.
---
 src/collidermodus.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/collidermodus.cc b/src/collidermodus.cc
index 1156d02..9e3d02d 100644
--- a/src/collidermodus.cc
+++ b/src/collidermodus.cc
@@ -362,7 +362,8 @@ ColliderModus::ColliderModus(Configuration modus_config,
           << max_time << " fm.";
       IC_parameters_->formation_time_fraction = form_time_fraction;
       IC_parameters_->smearing_kernel_at_0 =
-          std::pow(2 * M_PI * params.gaussian_sigma, -1.5);
+          std::pow(2 * M_PI * params.gaussian_sigma * params.gaussian_sigma,
+                   -1.5);
       IC_parameters_->delay_initial_elastic = modus_cfg.take(
           InputKeys::modi_collider_initialConditions_delayInitialElastic);
     }
-- 
2.43.0


From 1ec544bb6a1d53b64f846953c820c437e4d853dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:57 +0000
Subject: [PATCH 77/86] fix: documented default number of cells for
 fluidization

---
 src/include/smash/input_keys.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/input_keys.h b/src/include/smash/input_keys.h
index 53415d3..8120e7a 100644
--- a/src/include/smash/input_keys.h
+++ b/src/include/smash/input_keys.h
@@ -4071,7 +4071,7 @@ struct InputKeys {
 
   /*!\Userguide
    * \page doxypage_input_conf_modi_C_initial_conditions
-   * \optional_key_no_line{key_MC_IC_fluid_cells_,Fluidization_Cells,int,80}
+   * \optional_key_no_line{key_MC_IC_fluid_cells_,Fluidization_Cells,int,100}
    *
    * Fixed number of cells in each direction to select fluidizing particles.
    * Ideally the cell should be small enough for a meaningful interpolation,
-- 
2.43.0


From e0f0c12d4f45e089fcebe7694e1e53050b86b0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:21 +0000
Subject: [PATCH 78/86] fix: Pauli blocking by particles of other ensembles

The incoming particles are not counted for the phase-space density of the
outgoing ones. They were identified by their id only, which is not unique among
ensembles, so unrelated particles of other ensembles were not counted either.
---
 src/pauliblocking.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pauliblocking.cc b/src/pauliblocking.cc
index fa9d9c8..5e6e43b 100644
--- a/src/pauliblocking.cc
+++ b/src/pauliblocking.cc
@@ -68,10 +68,14 @@ double PauliBlocker::phasespace_dens(const ThreeVector &r, const ThreeVector &p,
       if (rdist_sqr >= (rr_ + rc_) * (rr_ + rc_)) {
         continue;
       }
-      // Do not count particles that should be disregarded.
+      /* Do not count particles that should be disregarded. Particles in
+       * different ensembles have the same ids, so these do not suffice to
+       * identify a particle. */
       bool to_disregard = false;
       for (const auto &disregard_part : disregard) {
-        if (part.id() == disregard_part.id()) {
+        if (part.id() == disregard_part.id() &&
+            part.momentum() == disregard_part.momentum() &&
+            part.position() == disregard_part.position()) {
           to_disregard = true;
         }
       }
-- 
2.43.0


From 0a6d91696cf33e1ad9a9bb73d1f1f92ce333aade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:38 +0000
Subject: [PATCH 79/86] fix: Eckart density in the thermodynamics output

It was the absolute value of the net current of all ensembles instead of the
difference of the densities of both signs, so it lost its sign and the
simulation was terminated with an exception when the net current was spacelike.
Contrary to the documentation it was not a density without smearing.
---
 src/thermodynamicoutput.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/thermodynamicoutput.cc b/src/thermodynamicoutput.cc
index 87a65bb..5d07790 100644
--- a/src/thermodynamicoutput.cc
+++ b/src/thermodynamicoutput.cc
@@ -185,13 +185,18 @@ void ThermodynamicOutput::at_intermediate_time(
   std::fprintf(file_.get(), "%6.2f ", clock->current_time());
   constexpr bool compute_gradient = false;
   if (out_par_.td_rho_eckart) {
-    FourVector jmu = FourVector();
+    /* The density is always smeared. It cannot be calculated from the net
+     * current, which is not necessarily timelike. */
+    constexpr bool smearing = true;
+    ParticleList all_particles;
     for (const Particles &particles : ensembles) {
-      jmu += std::get<1>(current_eckart(
-          out_par_.td_position, particles, dens_param, out_par_.td_dens_type,
-          compute_gradient, out_par_.td_smearing));
+      const ParticleList list = particles.copy_to_vector();
+      all_particles.insert(all_particles.end(), list.begin(), list.end());
     }
-    std::fprintf(file_.get(), "%15.12f ", jmu.abs());
+    const double rho = std::get<0>(current_eckart(
+        out_par_.td_position, all_particles, dens_param, out_par_.td_dens_type,
+        compute_gradient, smearing));
+    std::fprintf(file_.get(), "%15.12f ", rho);
   }
   if (out_par_.td_tmn || out_par_.td_tmn_landau || out_par_.td_v_landau) {
     EnergyMomentumTensor Tmn;
-- 
2.43.0


From b58488d9baff60dce9894fa5a479c34e78ca0844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:28 +0000
Subject: [PATCH 80/86] fix: VTK output without particles

The time of an empty list of particles was requested, which is undefined.
---
 src/vtkoutput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vtkoutput.cc b/src/vtkoutput.cc
index affe14e..ba5720d 100644
--- a/src/vtkoutput.cc
+++ b/src/vtkoutput.cc
@@ -134,7 +134,7 @@ void VtkOutput::write(const Particles &particles) {
   }
   std::fprintf(file_.get(), "SCALARS is_formed int 1\n");
   std::fprintf(file_.get(), "LOOKUP_TABLE default\n");
-  double current_time = particles.time();
+  const double current_time = particles.is_empty() ? 0. : particles.time();
   for (const auto &p : particles) {
     std::fprintf(file_.get(), "%s\n",
                  (p.formation_time() > current_time) ? "0" : "1");
-- 
2.43.0


From bb7e8c9e5ccdf4db38ff5528ea9c13d62925c636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:50 +0000
Subject: [PATCH 81/86] fix: names of VTK files of lattices

The numbers of the files with fields went on in the next event, while all
others start at 0, and the ending was cut off for 6-digit event numbers.
---
 src/vtkoutput.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vtkoutput.cc b/src/vtkoutput.cc
index ba5720d..77b8724 100644
--- a/src/vtkoutput.cc
+++ b/src/vtkoutput.cc
@@ -70,6 +70,7 @@ void VtkOutput::at_eventstart(const Particles &particles,
   vtk_tmn_landau_output_counter_ = 0;
   vtk_v_landau_output_counter_ = 0;
   vtk_fluidization_counter_ = 0;
+  vtk_fields_output_counter_ = 0;
 
   current_event_ = event_label.event_number;
   current_ensemble_ = event_label.ensemble_number;
@@ -234,7 +235,7 @@ void VtkOutput::write_vtk_vector(std::ofstream &file,
 }
 
 std::string VtkOutput::make_filename(const std::string &descr, int counter) {
-  char suffix[22];
+  char suffix[40];
   snprintf(suffix, sizeof(suffix), "_%05i_tstep%05i.vtk", current_event_,
            counter);
   return base_path_.string() + std::string("/") + descr + std::string(suffix);
-- 
2.43.0


From 0c82d85a2e5e9f2a452ee22e5e6dbc15ce954f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:46 +0000
Subject: [PATCH 82/86] fix: documented header of the thermodynamics lattice
 output

Spacing and origin are printed in the other order, and the spacing is not the
size of the lattice.
---
 src/thermodynamiclatticeoutput.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thermodynamiclatticeoutput.cc b/src/thermodynamiclatticeoutput.cc
index 32882fe..b15cf85 100644
--- a/src/thermodynamiclatticeoutput.cc
+++ b/src/thermodynamiclatticeoutput.cc
@@ -71,11 +71,11 @@ namespace smash {
  * - nx, ny, nz:  cells of the lattice along x, y, z, respectively
  *   (set in: Lattice->Cell_Number, see \ref doxypage_input_conf_lattice)
  *   (3 ints)
+ * - dx, dy, dz: spacing of the lattice, i.e. the size of its cells
+ *   (ASCII: 3 fixed 6 digits precision floats, Binary: 3 doubles)
  * - x0, y0, z0: coordinates of the origin of the lattice
  *   (set in Lattice->Origin)
  *   (ASCII: 3 fixed 6 digits precision floats, Binary: 3 doubles)
- * - dx, dy, dz: size of the lattice (set in Lattice->Sizes)
- *   (ASCII: 3 fixed 6 digits precision floats, Binary: 3 doubles)
  *
  * In "Lattice_ASCII" the data entries are separated by 1 space and each line of
  * the header starts with "#", followed by the description of the entry.
-- 
2.43.0


From 9e81fce02daa511afc692238bb1aaf76f044c7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:02 +0000
Subject: [PATCH 83/86] fix: filling of strings that are longer than the width

The unsigned difference of the widths wrapped around, which ended in a
std::length_error exception.
---
 src/stringfunctions.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/stringfunctions.cc b/src/stringfunctions.cc
index 22782dc..32a159c 100644
--- a/src/stringfunctions.cc
+++ b/src/stringfunctions.cc
@@ -17,13 +17,13 @@ namespace smash {
 namespace utf8 {
 
 /**
- * Adjust filling width by taking the size of unicode characters into account.
- * This is necessary, because UTF-8 characters can be represented by more than
- * byte.
+ * Number of characters necessary to fill a string to a given width, taking the
+ * size of unicode characters into account. This is necessary, because UTF-8
+ * characters can be represented by more than byte.
  *
  * \param[in] s String to be filled.
- * \param[in] width Width (in bytes) to be adjusted.
- * \return Adjusted width.
+ * \param[in] width Width to which the string should be filled.
+ * \return Number of missing characters, zero if the string is long enough.
  */
 inline static size_t adjust(const std::string &s, size_t width) {
   for (unsigned char c : s) {
@@ -42,11 +42,11 @@ inline static size_t adjust(const std::string &s, size_t width) {
       width += 1;
     }
   }
-  return width;
+  return width > s.size() ? width - s.size() : 0;
 }
 
 std::string fill_left(const std::string &s, size_t width, char fill) {
-  width = adjust(s, width - s.size());
+  width = adjust(s, width);
   if (width > 0) {
     return std::string(width, fill) + s;
   }
@@ -54,7 +54,7 @@ std::string fill_left(const std::string &s, size_t width, char fill) {
 }
 
 std::string fill_right(const std::string &s, size_t width, char fill) {
-  width = adjust(s, width - s.size());
+  width = adjust(s, width);
   if (width > 0) {
     return s + std::string(width, fill);
   }
@@ -62,7 +62,7 @@ std::string fill_right(const std::string &s, size_t width, char fill) {
 }
 
 std::string fill_both(const std::string &s, size_t width, char fill) {
-  width = adjust(s, width - s.size());
+  width = adjust(s, width);
   if (width > 0) {
     const int l = width / 2;
     const int r = width - l;
-- 
2.43.0


From ebefd9499ea208d47f079ab5241f7e3f055fc71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:02 +0000
Subject: [PATCH 84/86] fix: endless loop when removing an empty substring

---
 src/stringfunctions.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stringfunctions.cc b/src/stringfunctions.cc
index 32a159c..9289e32 100644
--- a/src/stringfunctions.cc
+++ b/src/stringfunctions.cc
@@ -85,6 +85,9 @@ std::string trim(const std::string &s) {
 void remove_substr(std::string &s, const std::string &p) {
   using str = std::string;
   str::size_type n = p.length();
+  if (n == 0) {
+    return;
+  }
   for (str::size_type i = s.find(p); i != str::npos; i = s.find(p)) {
     s.erase(i, n);
   }
-- 
2.43.0


From 0112cfa567dc7b681bc345dbff9684ab81988971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:02 +0000
Subject: [PATCH 85/86] fix: join strings with leading empty strings

The delimiters after empty strings at the beginning were left out.
---
 src/stringfunctions.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stringfunctions.cc b/src/stringfunctions.cc
index 9289e32..9796bef 100644
--- a/src/stringfunctions.cc
+++ b/src/stringfunctions.cc
@@ -9,6 +9,7 @@
 
 #include "smash/stringfunctions.h"
 
+#include <iterator>
 #include <numeric>
 #include <sstream>
 
@@ -128,9 +129,12 @@ std::vector<std::string> split(const std::string &s, char delim) {
 }
 
 std::string join(const std::vector<std::string> &v, const std::string &delim) {
-  return std::accumulate(std::begin(v), std::end(v), std::string{},
+  if (v.empty()) {
+    return {};
+  }
+  return std::accumulate(std::next(std::begin(v)), std::end(v), v.front(),
                          [&delim](const std::string &ss, const std::string &s) {
-                           return ss.empty() ? s : ss + delim + s;
+                           return ss + delim + s;
                          });
 }
 
-- 
2.43.0


From 1223021ddf6b039edd7851c9da75822ba4947d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:02 +0000
Subject: [PATCH 86/86] fix: detection of garbage at the very end of a line

A last word that ends with the line was not noticed.
---
 src/include/smash/inputfunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/inputfunctions.h b/src/include/smash/inputfunctions.h
index bd504f4..b535122 100644
--- a/src/include/smash/inputfunctions.h
+++ b/src/include/smash/inputfunctions.h
@@ -59,7 +59,7 @@ build_vector_<Line> line_parser(const std::string &input);
 inline void ensure_all_read(std::istream &input, const Line &line) { /*{{{*/
   std::string tmp;
   input >> tmp;
-  if (!input.eof()) {
+  if (!tmp.empty()) {
     throw ParticleType::LoadFailure(
         build_error_string("While loading the Particle data:\nGarbage (" + tmp +
                                ") at the remainder of the line.",
-- 
2.43.0

