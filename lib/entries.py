# One entry per property. The text fields are what properties.jsonl carries.

_NOTE = ("Randomised search against an explicit oracle on the real code, "
         "deterministic in VERIF_SEED; it shows absence of counterexamples in "
         "the generated cases, not a proof. ")

check(
    "P01",
    title="The particle list is a faithful container with unique identities",
    statement="A particle list behaves, after any history of insertions, "
    "removals, replacements, updates and resets, as a map from ever-new unique "
    "ids to particles: size, emptiness, time, iteration in either direction, "
    "copying and serialisation show exactly the particles put in and not taken "
    "out, each once. A handle is valid exactly as long as its particle is in "
    "the list, and lookups through a valid handle give that particle's current "
    "data.",
    over=["histories"],
    text="all sequences of insert/create/remove/replace/update/reset calls, of "
    "any length, including ones that reuse freed slots and force growth",
    why="The class has no stable unit test in this build; the upstream test "
    "walks two fixed sequences. Slot reuse, id wrap and growth interact only "
    "over histories.",
    files=["src/particles.cc", "src/include/smash/particles.h",
           "src/include/smash/particledata.h"],
    mech=[("dirty list of holes reused before growth",
           "src/include/smash/particles.h"),
          ("is_valid compares index, id and id_process",
           "src/include/smash/particles.h")],
    technique="stateful model-based property testing",
    rule="random operation histories (up to 40 operations) on a Particles "
    "object compared with a std::map model after every operation; non-trivial "
    "= at least one removal followed by an insertion, or a batch creation that "
    "forces growth",
    scale=5,
    level_note=_NOTE + "Every observable of the container is compared with a "
    "reference map.")

check(
    "P02",
    title="Boosts, rotations and vector algebra are exact Lorentz geometry",
    statement="Boosting any four-vector preserves its invariant square, is "
    "undone by the opposite boost, brings a massive momentum to rest when done "
    "with its own velocity, and agrees with the explicit matrix; rotations are "
    "proper and orthogonal with the documented Euler and axis conventions. "
    "Vector operations satisfy the vector-space identities, and angles always "
    "describe the unit vector they were made from.",
    text="all finite four-vectors, velocities |v|<1 (gamma up to 100), axes "
    "and angles",
    why="The unit tests evaluate a handful of fixed vectors; the statement "
    "quantifies over all vectors and velocities, including degenerate ones "
    "(along the axes, antiparallel, zero).",
    files=["src/fourvector.cc", "src/threevector.cc",
           "src/include/smash/fourvector.h",
           "src/include/smash/threevector.h", "src/include/smash/angles.h"],
    mech=[("lorentz_boost", "src/fourvector.cc"),
          ("rotate, rotate_around_axis, rotate_z_axis_to",
           "src/threevector.cc"),
          ("Angles normalisation", "src/include/smash/angles.h")],
    technique="property-based testing: algebraic laws and a long-double "
    "reference",
    rule="random and degenerate vectors, velocities, axes and angles; "
    "non-trivial = non-zero velocity/angle and a vector not along it",
    scale=10,
    level_note=_NOTE + "Tolerances follow the rounding error of the formulas.")

check(
    "P03",
    title="Kinematic conversions equal explicit four-momentum kinematics",
    statement="Converting between beam momentum, total or kinetic energy, "
    "centre-of-mass energy, velocities, centre-of-mass momentum and the range "
    "of momentum transfer gives, for all physical masses and beams, the value "
    "that explicit addition of the four-momenta gives; conversions that are "
    "inverses undo one another, and below threshold there is no momentum.",
    text="all masses > 0, beam momenta and energies, one or two moving beams",
    why="Unit tests use single values and equal masses, which hid swapped "
    "masses; only varied unequal inputs separate the cases.",
    files=["src/include/smash/kinematics.h"],
    mech=[("s_from_Ekin, s_from_Etot, s_from_plab, pCM, plab_from_s, "
           "get_t_range", "src/include/smash/kinematics.h")],
    technique="property-based testing: long-double reference and inverses",
    rule="random masses 0.01-250 GeV and momenta; non-trivial = both beams "
    "moving with unequal masses, or above threshold",
    scale=10,
    level_note=_NOTE + "Tolerances follow the rounding error of the formulas.")

check(
    "P04",
    title="PDG codes round-trip and carry the quark model's quantum numbers",
    statement="Every spelling of a PDG number (text, hexadecimal, decimal, "
    "stream) denotes the same particle and is printed back as that number; "
    "codes that break the numbering scheme are rejected with an error and "
    "never misread. Charge, baryon number, strangeness, charm, beauty, "
    "isospin, spin, species predicates and charge conjugation always follow "
    "from the valence quarks (or the proton, neutron and Lambda numbers of a "
    "nucleus).",
    text="all digit combinations of hadrons, leptons, bosons and (anti-, "
    "hyper-)nuclei, and all strings as input",
    why="No stable unit test of this class exists in this build, and the "
    "upstream one lists a few dozen codes; the scheme has millions.",
    files=["src/include/smash/pdgcode.h", "src/pdgcode.cc"],
    mech=[("bit-field representation, set_from_string, set_fields, check",
           "src/include/smash/pdgcode.h"),
          ("net_quark_number", "src/pdgcode.cc")],
    technique="property-based testing: round trips and a quark-model reference",
    rule="random digits per particle class, nuclei, and raw strings; "
    "non-trivial = hadron, nucleus or non-empty string",
    scale=10,
    level_note=_NOTE + "The reference computes all numbers from the quark "
    "content by the PDG scheme, independently of the code.")

check(
    "P05",
    title="The particle table is complete, unambiguous and CPT/isospin consistent",
    statement="For the shipped table and for every well-formed table a user "
    "supplies, each listed state and its antiparticle exist exactly once, can be "
    "found by code and by an unambiguous name, carry the listed mass, width and "
    "parity (inverted for antifermions), and sit in an isospin multiplet with "
    "2I+1 distinct projections of one flavour. Tables with missing fields, "
    "malformed or duplicate codes, or masses the code fixes are refused, and "
    "nothing that is not listed is ever found.",
    over=["inputs", "configurations"],
    text="all entries of the shipped table; all tables over multiplets of "
    "every flavour, with any layout and comments; nine ways to break a table",
    why="Tests check a few species by hand; the statement quantifies over all "
    "species and over user-supplied tables (flavours the shipped tests never "
    "look at, such as beauty mesons).",
    files=["src/particletype.cc", "src/isoparticletype.cc",
           "src/inputfunctions.cc", "input/particles.txt"],
    mech=[("create_type_list, antiname, try_find", "src/particletype.cc"),
          ("create_multiplet, anti_multiplet", "src/isoparticletype.cc")],
    technique="property-based testing: invariants, reference loader, malformed "
    "input generation",
    rule="random entries of the shipped table and random generated tables; "
    "non-trivial = hadron entries, tables with more than two multiplets, every "
    "broken table",
    scale=5,
    level_note=_NOTE + "The reference table is computed by an independent "
    "loader in the harness.")

check(
    "P06",
    title="Decay tables obey isospin, conservation laws and normalisation",
    statement="Loading a decay table gives every state of a multiplet exactly "
    "the modes that isospin coupling of the listed multiplets (or charge, for "
    "listed states) implies, with branching ratios that follow the squared "
    "Clebsch-Gordan factors and sum to one, and gives antiparticles the "
    "conjugate modes; in the shipped tables every mode conserves charge, baryon "
    "number and, for resonances, flavour and lies above threshold. A table that violates "
    "isospin, parity, angular momentum, charge or thresholds, misses or repeats "
    "a section or names unknown particles is refused, and a valid one is not.",
    over=["inputs", "configurations"],
    text="the shipped table and all tables over resonances of any isospin, "
    "spin, parity and strangeness with two- and three-body modes",
    why="The shipped table is one sample; users supply others, and tests try "
    "five hand-written ones. Daughter order and spin combinations matter.",
    files=["src/decaymodes.cc", "src/clebschgordan.cc", "src/processbranch.cc",
           "input/decaymodes.txt"],
    mech=[("load_decaymodes, renormalize, min_angular_momentum",
           "src/decaymodes.cc")],
    technique="property-based testing against a reference loader (exact "
    "Clebsch-Gordan algebra)",
    rule="every entry of the shipped table at random, and random tables with "
    "1-4 resonances, 0-4 modes each; non-trivial = unstable entry, or a table "
    "with at least one mode",
    scale=5,
    level_note=_NOTE + "The reference loader is written from the documented "
    "rules; the order of daughters must not matter.")

check(
    "P07",
    title="The interaction grid shows every close pair exactly once",
    statement="For every set of particles, the cell grid (open or periodic) "
    "puts each particle that can interact into exactly one search cell and "
    "presents every pair (in a periodic box: every pair of nearest images, "
    "translated by whole box lengths) that is closer than the interaction "
    "length exactly once, never a particle with itself, and no pair twice. "
    "Cells tile the volume, their number respects the requested limit, "
    "particles that cannot interact are left out unless asked for, and "
    "systems too large or boxes too small for the grid are refused.",
    text="all particle positions (including on cell and box boundaries), "
    "cell sizes, aspect ratios, limits and strategies",
    why="A missed or doubled pair silently changes collision rates; the grid "
    "has no stable test here and the upstream one uses a few fixed layouts.",
    files=["src/grid.cc", "src/include/smash/grid.h"],
    mech=[("Grid constructor and iterate_cells", "src/grid.cc")],
    technique="property-based testing against brute-force pair enumeration",
    rule="1-60 particles in random, lattice-like and clustered layouts; "
    "non-trivial = several cells and at least one close pair",
    scale=8,
    level_note=_NOTE + "The oracle is the O(N^2) loop over all pairs and "
    "images.")

check(
    "P08",
    title="Resonance widths, spectral functions and sampled masses are "
    "consistent",
    statement="For every unstable species and mass, the total width is the sum "
    "of its partial widths, each of which vanishes below the lightest masses of "
    "its daughters, equals the tabulated width times branching ratio at the "
    "pole (two-body hadronic modes), and follows the Manley-Saleski formula "
    "with Blatt-Weisskopf and Post form factors; antiparticles have equal "
    "widths. Spectral functions are non-negative, "
    "normalised Breit-Wigners of the total width. Sampled resonance masses are "
    "always kinematically allowed and distributed as spectral function times "
    "two-body phase space. A pair can form exactly the resonances that decay "
    "into it.",
    text="all unstable species of the default table, all their decay modes, "
    "masses from zero to ten widths above the pole, all hadron pairs",
    why="Tests evaluate a few species at one mass; every species has its own "
    "thresholds, tabulations and branching ratios and all must hold.",
    files=["src/particletype.cc", "src/decaytype.cc",
           "src/include/smash/formfactors.h", "src/distributions.cc",
           "src/include/smash/tabulation.h"],
    mech=[("total_width, partial_width, get_partial_in_width, "
           "spectral_function, sample_resonance_mass(es), "
           "list_possible_resonances", "src/particletype.cc"),
          ("width, in_width, rho of the decay types", "src/decaytype.cc")],
    technique="property-based testing: independent quadrature of the formula, "
    "algebraic invariants and goodness-of-fit of sampled masses",
    rule="random species, decay modes and masses around thresholds, pole and "
    "tail; non-trivial = finite width of a species with several modes / "
    "momentum-dependent phase space",
    scale=1,
    level_note=_NOTE + "Widths with unstable daughters are compared within "
    "the error of SMASH's linear interpolation table.")

check(
    "P09",
    title="Decays conserve everything and follow the decay law",
    statement="A decay of a resonance of any allowed mass, momentum and "
    "position produces the daughters of one of its open decay modes, chosen "
    "with probability proportional to the partial widths; total four-momentum, "
    "charge, baryon number, strangeness, charm and bottom are conserved, "
    "stable daughters are on their mass shell, and all daughters start at the "
    "mother's position, formed at the decay time, with the mother as recorded "
    "parent, replacing her in the particle list. Directions are isotropic in "
    "her rest frame and three-body decays fill phase space uniformly. Decay "
    "times are exponential with the time-dilated mean life time (times the "
    "life-time modifier, counted from the formation time); stable "
    "particles, and on request initial particles before their first "
    "collision, do not decay, and forced final decays leave "
    "only stable particles.",
    text="all unstable species, all their decay modes, masses, momenta up to "
    "100 GeV, particle lists, time step sizes and life-time modifiers",
    why="DecayAction and its finder are not covered by any stable test here; "
    "conservation and the decay law are statements about all species, frames "
    "and random seeds.",
    files=["src/decayaction.cc", "src/decayactionsfinder.cc", "src/action.cc",
           "src/particletype.cc", "src/particledata.cc"],
    mech=[("sample_outgoing_particles, generate_final_state",
           "src/decayaction.cc"),
          ("find_actions_in_cell, find_final_actions",
           "src/decayactionsfinder.cc"),
          ("perform, sample_angles, sample_manybody_phasespace",
           "src/action.cc")],
    technique="property-based testing: invariants of every generated decay, "
    "goodness-of-fit of frequencies, angles, Dalitz plots and decay times, "
    "stateful cascades",
    rule="random species, masses, frames and seeds; non-trivial = several "
    "open channels and a moving mother (single_decay), time dilation "
    "(decay_law), a cascade that at least doubles the particle number",
    scale=8,
    level_note=_NOTE + "Statistical comparisons have a false-alarm "
    "probability below 1e-8 per case and are deterministic for a given seed.")

check(
    "P10",
    title="Interactions are executed in time order, conserve everything and "
    "keep the books",
    statement="The action queue hands out every inserted action exactly once, "
    "earliest first, under any interleaving of insertions and removals. "
    "Performing an action replaces (or, if elastic or a wall crossing, "
    "updates) exactly its incoming particles, records process, time, parents "
    "and collision count, invalidates outdated actions, leaves all other "
    "particles untouched, and refuses final states that violate conservation. "
    "Sampled two- and many-body final states are on shell, conserve "
    "four-momentum, respect thresholds and are distributed as phase space. The "
    "interaction point is the mean (in a periodic box: closest-image midpoint) "
    "of the particles' positions at the time of execution. Products "
    "inherit the formation time and cross-section scaling of the incoming "
    "particle that forms last.",
    over=["histories"],
    text="all sequences of queue operations and performed actions, all species "
    "and momenta, 2 to 6 outgoing particles of any masses",
    why="None of these classes has a stable test here; ordering, conservation "
    "and the phase-space weights are statements about all histories and all "
    "masses.",
    files=["src/action.cc", "src/include/smash/action.h",
           "src/include/smash/actions.h", "src/particledata.cc",
           "src/include/smash/quantumnumbers.h", "src/quantumnumbers.cc",
           "src/particles.cc"],
    mech=[("heap of actions", "src/include/smash/actions.h"),
          ("perform, get_interaction_point, sample_manybody_phasespace_impl, "
           "assign_formation_time_to_outgoing_particles", "src/action.cc"),
          ("xsec_scaling_factor, set_history", "src/particledata.cc")],
    technique="stateful model-based property testing plus goodness-of-fit of "
    "sampled phase space against an independent recursion",
    rule="random queue histories, incoming and outgoing particles, masses and "
    "seeds; non-trivial = at least two queue removals / two performed actions "
    "/ an unformed incoming particle / three or more bodies",
    scale=20,
    level_note=_NOTE + "Statistical comparisons have a false-alarm "
    "probability below 1e-8 per case and are deterministic for a given seed.")

check(
    "P11",
    title="Free motion: straight lines, periodic boundaries, expanding metrics",
    statement="Between interactions every particle moves on a straight line "
    "with its own velocity (initial nucleons with frozen Fermi motion: with "
    "the beam's), however the time is divided into steps; moving back to a "
    "common start time is the exact inverse and marks particles as unformed "
    "until they reappear. In a box, wall crossings happen in time order where "
    "the trajectory meets a wall, end on the opposite side, and leave "
    "momentum, identity and history alone; particles never leave the box and "
    "end on the free trajectory modulo the box length, and wraps are counted "
    "and reported once each (not to dilepton and photon output). In expanding "
    "metrics positions and momenta scale with the Hubble parameter of the "
    "configured expansion and particles stay on shell.",
    over=["inputs", "histories"],
    text="all particle lists, velocities up to that of light, box sizes from "
    "0.5 to 40 fm, time steps up to several box lengths, expansion modes and "
    "rates",
    why="Propagation, box and wall crossing have no stable test here; drift "
    "out of the box or a position off by a period only shows for particular "
    "directions, corners and step lengths.",
    files=["src/propagation.cc", "src/wallcrossingaction.cc",
           "src/include/smash/algorithms.h", "src/boxmodus.cc",
           "src/include/smash/propagation.h",
           "src/include/smash/wallcrossingaction.h"],
    mech=[("propagate_straight_line, backpropagate_straight_line, "
           "expand_space_time, calc_hubble", "src/propagation.cc"),
          ("WallCrossActionsFinder::find_actions_in_cell",
           "src/wallcrossingaction.cc"),
          ("impose_boundary_conditions", "src/boxmodus.cc"),
          ("enforce_periodic_boundaries", "src/include/smash/algorithms.h")],
    technique="property-based testing against the analytic trajectory, "
    "metamorphic step splitting and reversal, stateful wall crossing",
    rule="random particle lists, steps and boxes; non-trivial = more than one "
    "particle / more than one wall crossing / some but not all particles "
    "wrapped / an expanding metric",
    scale=5,
    level_note=_NOTE)

check(
    "P12",
    title="Hadronic cross sections: conserved charges, symmetries, switches, balance",
    statement="For any pair of particles, masses, energy and configuration "
    "without strings, every reaction channel conserves electric charge, "
    "baryon number, strangeness, charm and bottom, is kinematically open and "
    "has a finite, non-negative cross section, and the total is their sum. "
    "Cross sections do not depend on the order of the two particles or the "
    "frame, are the same for the antiparticles, and (other than resonance "
    "formation, whose branching ratios come from the table) under isospin "
    "reflection. Each configuration switch controls exactly its own "
    "reactions; the scale factor, additional, constant and cut-off elastic "
    "cross sections act as documented; with the top-down strategy the "
    "channels are rescaled to the parametrized total, which is non-negative. "
    "Resonance formation is the Breit-Wigner formula for every resonance "
    "coupling to the pair. Forward and backward reactions obey detailed "
    "balance, integrated over resonance masses. Elementary parametrizations "
    "keep their published (recorded) values.",
    over=["inputs"],
    text="all pairs of species of a table (core species plus a seed-chosen "
    "selection), pole and off-shell masses, energies from threshold to 6 GeV, "
    "all combinations of reaction switches",
    why="The cross section classes have no stable test here, and hundreds of "
    "hand-written charge states only show an inconsistency for the particular "
    "pair and energy.",
    files=["src/crosssections.cc", "src/scatteraction.cc",
           "src/parametrizations.cc", "src/isoparticletype.cc",
           "src/clebschgordan.cc", "src/include/smash/crosssections.h",
           "src/include/smash/parametrizations_data.h",
           "src/include/smash/tabulation.h"],
    mech=[("generate_collision_list, nk_xx, ypi_xx, deltak_xx, nn_xx, "
           "bar_bar_to_nuc_nuc, dpi_xx, dn_xx, formation",
           "src/crosssections.cc"),
          ("add_all_scatterings, rescale_outgoing_branches",
           "src/scatteraction.cc"),
          ("tabulated spectral integrals", "src/isoparticletype.cc")],
    technique="metamorphic property testing (exchange, boost, conjugation, "
    "isospin reflection, switch additivity, scaling), independent "
    "Breit-Wigner and detailed-balance oracles, recorded reference values",
    rule="random pairs, masses, energies and configurations; non-trivial = "
    "more than two channels (channels, symmetries, switches), more than one "
    "resonance (formation), an inverted channel (detailed_balance), a "
    "non-zero reference (fitted)",
    scale=3,
    level_note=_NOTE + "The reference values of parametrizations were "
    "recorded from the pinned tree (with its fixes).")

check(
    "P13",
    title="Collision finding: which pairs collide, and when",
    statement="For every pair of particles the time of closest approach is "
    "the one of the chosen criterion (geometric: in the computational frame; "
    "covariant: the invariant one, with momenta including Fermi motion only "
    "where it is frozen), it is never in the past or beyond the time step, "
    "and the transverse distance squared is the impact parameter in the "
    "centre-of-momentum frame, independent of frame and particle order. "
    "Searching cells and their neighbours finds exactly the pairs whose "
    "distance is below sqrt(sigma / pi / testparticles) at a time within the "
    "step, each pair once, and none that has already collided last with each "
    "other, or that are unscattered nucleons of the same nucleus when this "
    "is disallowed. With the stochastic criterion a pair in a cell reacts "
    "with probability sigma v_rel dt / (N_test V), uniformly in the step, "
    "never without relative motion, and a probability above one is a warning "
    "or an error as configured. Of the configured groups of three, four and "
    "five (pions) in a cell, each is tried exactly once. Contradictory "
    "settings are refused.",
    over=["inputs", "configurations"],
    text="pairs and clouds of particles with any relative position and "
    "velocity, all three criteria, test-particle numbers, Fermi motion, "
    "nuclei, histories; random sets of options",
    why="The scattering finder needs Pythia, has no stable test here, and the "
    "distance formula can only be checked against hand-computed cases.",
    files=["src/scatteractionsfinder.cc", "src/scatteraction.cc",
           "src/include/smash/scatteractionsfinder.h",
           "src/include/smash/scatteractionsfinderparameters.h"],
    mech=[("ScatterActionsFinder::collision_time, check_collision_two_part, "
           "find_actions_in_cell, find_actions_with_neighbors",
           "src/scatteractionsfinder.cc"),
          ("ScatterAction::transverse_distance_sqr, "
           "cov_transverse_distance_sqr", "src/scatteraction.cc")],
    technique="model-based property testing: impact parameter and time from "
    "an independent covariant decomposition, metamorphic relations (boost, "
    "exchange), brute-force pair search, binomial tests of rates",
    rule="random pairs constructed around a chosen impact parameter, random "
    "clouds, random options; non-trivial = a future approach "
    "(collision_time), a well-conditioned separation (distance), at least "
    "one collision (pairs), a rate that is not forbidden (stochastic), any "
    "(configuration)",
    scale=20,
    level_note=_NOTE)

check(
    "P14",
    title="Two-particle scattering: final states conserve and are distributed",
    statement="Performing any two-particle scattering (elastic, resonance "
    "formation, two-to-two, to three, four or five particles) yields "
    "particles of the chosen channel on their mass shell or with allowed "
    "resonance masses, and conserves four-momentum, charge, baryon number and "
    "strangeness; the point of interaction, formation times and "
    "cross section scaling factors of the products follow from the incoming "
    "ones as documented. Channels are chosen in proportion to their cross "
    "sections. Elastic angles follow exp(b t) with the published slopes for "
    "nucleon pairs (including the backward component of np) and are "
    "isotropic where documented; NN to N Delta and N R are distributed "
    "by the published forms; the isotropic switch makes everything isotropic.",
    over=["inputs"],
    text="pairs of all species of a table at all energies and in any frame, "
    "in either order, all random decisions",
    why="Scattering actions have no stable test here; sampled momenta are "
    "random, so a fixed example can check neither distribution nor rare "
    "channels.",
    files=["src/scatteraction.cc", "src/action.cc", "src/crosssections.cc",
           "src/include/smash/scatteraction.h"],
    mech=[("ScatterAction::generate_final_state, sample_angles, "
           "elastic_scattering, inelastic_scattering, two_to_many_scattering",
           "src/scatteraction.cc"),
          ("Action::choose_channel, sample_masses", "src/include/smash/action.h")],
    technique="invariant checking over generated scatterings; "
    "Kolmogorov-Smirnov tests of sampled angles against integrated published "
    "distributions; binomial tests of branching",
    rule="random pairs, energies, frames; non-trivial = an inelastic final "
    "state (final_state), at least two channels (branching), an anisotropic "
    "case (elastic_angles, inelastic_angles)",
    scale=6,
    level_note=_NOTE)

check(
    "P15",
    title="Reactions of three to five particles: rates in detailed balance",
    statement="Three, four or five particles react exactly when they are the "
    "incoming set of a configured multi-particle reaction (3 mesons to omega, "
    "phi, eta'; deuterons, tritons, He-3, hypertritons and their antinuclei "
    "with a catalyst; five pions to N Nbar). The probability per time and "
    "volume is the detailed-balance inverse of the forward width or cross "
    "section (spin degeneracies, identical particles and n-body phase space "
    "included; five-pion phase space from its documented fit), does not "
    "depend on the order of the particles, is the same for the "
    "antiparticles, and scales with dt, V and test particles as documented. "
    "A search of a cell finds each set at most once, with that probability; "
    "final states conserve charges and four-momentum and are isotropic.",
    over=["inputs"],
    text="sets of three to five particles of all relevant species, any "
    "momenta and frame, all subsets of reactions",
    why="Multi-particle actions have no stable test here, and the charge "
    "states and symmetry factors are many.",
    files=["src/scatteractionmulti.cc", "src/scatteractionsfinder.cc",
           "src/include/smash/scatteractionmulti.h"],
    mech=[("ScatterActionMulti::add_possible_reactions, probability_*, "
           "react_degen_factor, calculate_I3", "src/scatteractionmulti.cc"),
          ("check_collision_multi_part", "src/scatteractionsfinder.cc")],
    technique="differential property testing against forward widths and cross "
    "sections times numerically integrated n-body phase space; metamorphic "
    "relations; binomial tests of the finder",
    rule="sets drawn from all reaction inputs, their neighbours and random "
    "species; non-trivial = at least one reaction exists",
    scale=10,
    level_note=_NOTE)

check(
    "P16",
    title="Lattices, smeared densities, gradients and energy-momentum tensors",
    statement="A lattice assigns every position to exactly one node (or none "
    "outside of a non-periodic lattice), and rectangles, cubes and nearest "
    "neighbours cover exactly the nodes they claim, each once, with periodic "
    "wrapping where configured; gradients are central differences (one-sided "
    "at edges), resizing keeps it consistent. The current at a point is the "
    "sum over particles of charge times velocity times a normalized "
    "Lorentz-contracted Gaussian cut at the given radius, with its "
    "derivatives; the same on lattice nodes for covariant, discrete and "
    "triangular smearing, by ensemble and test particle, keeping the total "
    "charge where nothing leaves. Energy-momentum tensors add p p/E, "
    "boost covariantly, and their Landau frame carries no momentum.",
    over=["inputs"],
    text="lattices of any shape, origin and periodicity; positions in, at the "
    "edge and outside; sets of particles of any species, charge and velocity; "
    "all smearing modes and parameters",
    why="The lattice test walks a few fixed lattices; densities have no "
    "stable test here, and edges and wrapping depend on the geometry.",
    files=["src/include/smash/lattice.h", "src/include/smash/density.h",
           "src/density.cc", "src/energymomentumtensor.cc"],
    mech=[("RectangularLattice iteration and gradients",
           "src/include/smash/lattice.h"),
          ("current_eckart, update_lattice", "src/density.cc"),
          ("EnergyMomentumTensor", "src/energymomentumtensor.cc")],
    technique="differential property testing against a direct long double "
    "implementation of the documented kernels and a brute-force enumeration "
    "of lattice nodes; conservation and covariance relations",
    rule="random lattices and particle sets; non-trivial = at least two nodes "
    "or particles take part",
    scale=8,
    level_note=_NOTE)

check(
    "P17",
    title="Mean-field potentials, electromagnetic fields and the forces they exert",
    statement="Skyrme, symmetry and VDF potentials have the documented values "
    "at every density; Skyrme and VDF are odd under charge conjugation, and "
    "nothing is NaN at zero or negative density. Forces are the documented "
    "derivatives: E = -U'(grad rho + dj/dt) etc. and B from the curl, also at "
    "any point from a list of particles. Light-quark content scales the "
    "potential, mesons feel none. With momentum dependence "
    "the energy in moving matter is that of matter at rest, boosted. "
    "Electromagnetic fields of charges on a lattice follow Coulomb and "
    "Biot-Savart. Momenta change by force times dt with forces evaluated "
    "before any momentum changes, keeping masses, on or off the lattice as "
    "configured.",
    over=["inputs"],
    text="all densities of either sign, currents, derivatives, parameters, "
    "particle sets and switches",
    why="Potentials have no stable test here; antimatter, empty space and "
    "density dependent symmetry terms are not sampled by any test.",
    files=["src/potentials.cc", "src/include/smash/potentials.h",
           "src/propagation.cc"],
    mech=[("Potentials::skyrme_force, symmetry_force, vdf_force, all_forces, "
           "potential", "src/potentials.cc"),
          ("calculation_frame_energy, single_particle_energy_gradient, "
           "E_field_integrand, B_field_integrand",
           "src/include/smash/potentials.h"),
          ("update_momenta", "src/propagation.cc")],
    technique="differential property testing against independently "
    "differentiated potentials and numerical momentum integrals; charge "
    "conjugation and Lorentz covariance as metamorphic relations",
    rule="random parameters, densities and particles; non-trivial = matter "
    "is present and a force acts",
    scale=12,
    level_note=_NOTE)

check(
    "P18",
    title="Whole simulations conserve, reproduce and report their own history",
    statement="A whole run of any modus, written to the binary outputs, is a "
    "consistent history: every interaction's incoming particles are particles "
    "present in the record up to then with their latest properties, ids are "
    "never reused, times do not decrease, what the interactions leave is "
    "exactly the list reported at the end, and charge, baryon number, "
    "strangeness (without weak decays) and, without potentials, energy and "
    "momentum are those of the start. The run is a function of "
    "its configuration and seed alone: repeating it, or adding outputs, gives "
    "the same bytes; event k equals a single event run with the seed that the "
    "run reports for it.",
    over=["histories"],
    text="configurations of the collider, box, sphere, list and list-box "
    "modi, with random species, criteria, time step modes, lattices, decays, "
    "test particles, ensembles, potentials and outputs",
    why="The experiment has no stable test in this build, and no test replays "
    "the recorded history of a run.",
    files=["src/include/smash/experiment.h", "src/experiment.cc",
           "src/binaryoutput.cc", "src/boxmodus.cc", "src/collidermodus.cc",
           "src/listmodus.cc", "src/spheremodus.cc"],
    mech=[("Experiment::run, perform_action, do_final_interactions",
           "src/include/smash/experiment.h"),
          ("BinaryOutputCollisions", "src/binaryoutput.cc")],
    technique="stateful property testing: randomly configured whole runs "
    "whose recorded histories are replayed on a model; determinism and "
    "single-event runs as differential relations",
    rule="random small configurations; non-trivial = at least one "
    "interaction other than a wall crossing took place",
    scale=60,
    level_note=_NOTE + "Runs are small (a few to a few dozen particles). "
    "Known finding: the adapted maxima of resonance mass sampling survive an "
    "event.")

check(
    "P19",
    title="Random numbers and sampled momenta follow the stated distributions",
    statement="Every sampler of the random module (uniform, integers, "
    "exponential, exponential in a range, power law, Cauchy, normal, beta, "
    "discrete weights, Poisson, binomial, two Poisson numbers at fixed "
    "difference) stays in its stated range and has its stated distribution "
    "for all parameters, and is a function of the seed. Thermal momenta "
    "follow Maxwell-Juttner for any mass and temperature, the "
    "off-equilibrium samplers their stated densities (the IC ones for "
    "massless particles), and quantum sampling the Fermi or Bose distribution "
    "at the chemical potential that gives the particles' density. "
    "Breit-Wigner, Cauchy and Juttner functions have their stated values.",
    over=["inputs"],
    text="all parameters of the distributions, seeds, masses and temperatures",
    why="The random test samples one parameter set per distribution; the "
    "ranges and method switches of the samplers depend on the parameters.",
    files=["src/random.cc", "src/include/smash/random.h",
           "src/distributions.cc", "src/quantumsampling.cc",
           "src/chemicalpotential.cc"],
    mech=[("random samplers", "src/include/smash/random.h"),
          ("BesselSampler", "src/random.cc"),
          ("sample_momenta_*", "src/distributions.cc"),
          ("QuantumSampling::sample", "src/quantumsampling.cc")],
    technique="property-based testing with Kolmogorov-Smirnov and Chernoff "
    "bounds against analytic or numerically integrated distributions",
    rule="random parameters, 6000 to 20000 samples each; non-trivial = the "
    "distribution is not concentrated in one value",
    scale=4,
    level_note=_NOTE + "Statistical oracles with false alarm probability "
    "below 1e-8; deviations below one or two percent are not seen.")

check(
    "P20",
    title="Interpolation, tables, integrals, roots, smoothing and clocks are right",
    statement="Linear and natural cubic spline interpolation, trilinear "
    "interpolation and tabulations have the values of their definition at "
    "every point including nodes, ends and beyond (per the extrapolation), "
    "whatever the order of the data; duplicate or too few points are refused. "
    "Tables survive a file unchanged, and only with the hash they were "
    "written with. Integrals of smooth functions meet the requested "
    "precision, for either sign; root finders return a root in the bracket "
    "or none, independently of each other. Smoothing is Cleveland's robust "
    "local regression. Clocks count exact multiples of 1e-6 fm up to the end "
    "time; custom clocks give their times in order.",
    over=["inputs", "histories"],
    text="all data sets, arguments, integrands of known integral, brackets, "
    "and sequences of clock operations",
    why="The unit tests use a fixed data set each; nodes, ends, sign of the "
    "result and histories of a clock are not varied.",
    files=["src/include/smash/interpolation.h", "src/interpolation.cc",
           "src/tabulation.cc", "src/include/smash/integrate.h",
           "src/include/smash/rootsolver.h", "src/include/smash/lowess.h",
           "src/include/smash/average.h", "src/include/smash/clock.h"],
    mech=[("find_index and sorting", "src/include/smash/interpolation.h"),
          ("Tabulation::get_value_linear, get_value_step, from_file",
           "src/tabulation.cc"),
          ("Result::check_error", "src/include/smash/integrate.h"),
          ("UniformClock, CustomClock", "src/include/smash/clock.h")],
    technique="differential property testing against independent long double "
    "implementations; analytic integrals and roots; model-based histories "
    "for clocks; scaling relations",
    rule="random data sets and functions; non-trivial = more than the "
    "minimal number of points, a root inside, or a clock that ticked",
    scale=20,
    level_note=_NOTE)

check(
    "P21",
    title="The configuration is a faithful tree of keys, none silently ignored",
    statement="The configuration read from a file or text, after any history "
    "of taking, reading, setting, merging, extracting, enclosing and removing, "
    "holds exactly the keys and values that were given and not yet taken. "
    "Every access gives the value, the default, or the documented exception "
    "(missing, taken twice, a section, wrong type, invalid value), reading "
    "changes nothing, and destroying a configuration complains if and only if "
    "keys were left unused. Merged content wins; aliases are copies. Words and "
    "sets of words are converted to enumerations as documented, nothing else "
    "is accepted, and what is set is what is read. Validation accepts exactly "
    "the listed input keys, and the default of each is given, valid and "
    "writable. Missing files, Windows line endings and wrong indentation are "
    "refused.",
    over=["inputs", "histories"],
    text="all YAML trees (block, flow, quotes, comments, aliases, empty "
    "sections and values), keys of several types and defaults, validators, "
    "and sequences of operations on several configurations",
    why="The unit tests walk fixed trees with a single operation each; "
    "emptied configurations, shared nodes and values where a section is "
    "expected appear in histories only.",
    files=["src/configuration.cc", "src/include/smash/configuration.h",
           "src/include/smash/key.h", "src/include/smash/input_keys.h",
           "src/stringify.cc", "src/include/smash/logging.h"],
    mech=[("take, read, set_value", "src/include/smash/configuration.h"),
          ("merge_yaml, extract_sub_configuration, validate",
           "src/configuration.cc"),
          ("to_string of enumerations", "src/stringify.cc")],
    technique="stateful model-based property testing; generated words and "
    "key sets against tables",
    rule="random YAML documents and operation histories compared with a tree "
    "model after every operation; non-trivial = two keys taken and a part "
    "extracted (history), a known word (words), several keys (validation, "
    "files)",
    scale=8,
    variant="san",
    level_note=_NOTE + "Runs with address and undefined behaviour sanitizers.")

check(
    "P22",
    title="Nuclei and the initial state of a collision are as configured",
    statement="A nucleus has exactly the given nucleons, and the given or "
    "documented radius, diffusiveness and deformation; its density integrates "
    "to the number of nucleons; positions are sampled from that density in all "
    "coordinates (spherical, hard sphere, deformed and triaxial, alpha "
    "clusters), centred, in the given orientation or isotropically rotated; "
    "nuclei from a file are used one after the other, as they are, up to "
    "rotation and centring. Fermi momenta fill the local Fermi sphere and add "
    "up to zero. In every event of a collision, all nucleons belong to their "
    "nucleus, on their mass shell, with a spin vector if spins are considered; "
    "nuclei have the velocities that follow from the given energy (in any of "
    "its forms) in the given frame, are contracted, touch at time zero, and "
    "are displaced by impact parameters of the given distribution and "
    "reaction plane. Contradictory, incomplete or impossible input is refused.",
    over=["inputs", "histories"],
    text="all nuclei, test particles, shapes, orientations, files, beam "
    "energies, frames, impact parameter settings, and several events",
    why="The unit tests look at few nuclei and one event; distributions over "
    "angles, orientations and states left over from the previous event are "
    "out of their reach.",
    files=["src/nucleus.cc", "src/deformednucleus.cc",
           "src/alphaclusterednucleus.cc", "src/customnucleus.cc",
           "src/collidermodus.cc", "src/include/smash/nucleus.h",
           "src/include/smash/kinematics.h"],
    mech=[("distribute_nucleon, generate_fermi_momenta, boost",
           "src/nucleus.cc"),
          ("nucleon_density, calculate_saturation_density",
           "src/deformednucleus.cc"),
          ("readfile, arrange_nucleons", "src/customnucleus.cc"),
          ("initial_conditions, sample_impact, energy options",
           "src/collidermodus.cc")],
    technique="property testing with statistical oracles "
    "(Kolmogorov-Smirnov against independently integrated densities), exact "
    "kinematic relations, and generated files and histories of events",
    rule="random nuclei and collision set-ups; non-trivial = more than one "
    "nucleon, a deformation, several stored nuclei, or invalid input",
    scale=10,
    level_note=_NOTE)

check(
    "P23",
    title="Outputs contain what happened in the documented layout",
    statement="For every sequence of events, ensembles, interactions and "
    "intermediate times, the particle, collision, dilepton, photon and initial "
    "condition outputs in the Oscar, ASCII and binary formats consist of "
    "exactly the documented header and blocks, in order; which blocks appear "
    "follows from the output options. Every particle appears with the "
    "requested quantities in the requested order, in text to 6 significant "
    "digits (9 for momenta) and in binary bit by bit; large blocks written in "
    "parts are the same as in one. Empty, unknown, repeated and synonymous "
    "quantities are refused. A file has its final name only after the output "
    "has been completed without an error.",
    over=["inputs", "histories"],
    text="all quantities, particles with values of any size, all formats, "
    "contents and options, and sequences of output calls",
    why="The unit tests write one event with fixed particles and the default "
    "quantities.",
    files=["src/oscaroutput.cc", "src/binaryoutput.cc", "src/icoutput.cc",
           "src/include/smash/outputformatter.h", "src/file.cc"],
    mech=[("getters, units, validate_quantities, write_in_chunk_impl",
           "src/include/smash/outputformatter.h"),
          ("at_eventstart, at_interaction, at_intermediate_time, at_eventend",
           "src/oscaroutput.cc"),
          ("create_binary_output and the binary outputs",
           "src/binaryoutput.cc"),
          ("RenamingFilePtr", "src/file.cc")],
    technique="stateful property testing: generated histories are written in "
    "several formats at once and read back by independent parsers",
    rule="random histories and lists of quantities; non-trivial = more than "
    "one particle and quantity, or a history of more than three calls",
    scale=40,
    level_note=_NOTE)

check(
    "P24",
    title="Particle lists are read as they are and faulty ones are refused",
    statement="The List modus takes the events of one or several files one "
    "after the other, each exactly once and with all its particles in order, "
    "whatever the layout allowed by the documentation (comments, header, "
    "blank lines, ends of lines, no newline at the end). Masses of stable "
    "particles and energies off the mass shell are corrected as documented, "
    "unknown species are left out, optional quantities are set, and particles "
    "at different times are moved back along straight lines to the earliest "
    "one and form at their own time. Lists written by SMASH (final particles "
    "or initial conditions) are read back as they were. Lists with "
    "inconsistent charges, histories, weights, columns, numbers or with more "
    "than two particles at a point are refused. In a box, particles are moved "
    "into it by multiples of its length, and reported as wall crossings.",
    over=["inputs", "histories"],
    text="all lists: species, momenta, times, columns, layouts, numbers of "
    "events and files, and faults in any event",
    why="The unit tests use one species, fixed layouts and few faults.",
    files=["src/listmodus.cc", "src/include/smash/listmodus.h",
           "src/particledata.cc", "src/propagation.cc",
           "src/inputfunctions.cc", "src/oscaroutput.cc"],
    mech=[("next_event_, file_has_events_, insert_optional_quantities_to_",
           "src/listmodus.cc"),
          ("create_valid_smash_particle_matching_provided_quantities",
           "src/particledata.cc"),
          ("backpropagate_straight_line", "src/propagation.cc"),
          ("enforce_periodic_boundaries", "src/include/smash/algorithms.h")],
    technique="property testing with generated files against a reference "
    "model of the documented reading, and round trips through the outputs",
    rule="random lists of events in files; non-trivial = more than one event "
    "or particle, or a fault",
    scale=40,
    level_note=_NOTE)

check(
    "P25",
    title="Hadron gas equation of state and forced thermalization",
    statement="HadronGasEos gives the densities, energy density and pressure "
    "of an ideal Boltzmann gas of all hadrons of the gas (no leptons, "
    "photons, or charm and bottom), at pole masses or folded with the "
    "spectral functions, at any temperature and chemical potentials; thermal "
    "masses are sampled from their distribution; solve_eos returns the state "
    "with the given energy and charge densities; EosTable interpolates its "
    "points linearly, survives a round trip through its file and is not "
    "taken from an inconsistent one. A thermalization cell finds its rest "
    "frame state from its energy, momentum and charges. Forced "
    "thermalization replaces exactly the particles in cells above the "
    "critical energy density, at their time, in such cells, keeping baryon "
    "number, strangeness, charge, energy and momentum; species and cells are "
    "sampled proportionally to the densities.",
    over=["inputs"],
    text="temperatures from 4 MeV to 2 GeV, chemical potentials, all species "
    "of the table, velocities, cell grids, algorithms and random states",
    why="The unit tests evaluate a few states and one thermalization with "
    "coarse tolerances.",
    files=["src/hadgas_eos.cc", "src/grandcan_thermalizer.cc",
           "src/include/smash/hadgas_eos.h",
           "src/include/smash/grandcan_thermalizer.h"],
    mech=[("HadronGasEos, EosTable", "src/hadgas_eos.cc"),
          ("compute_rest_frame_quantities, thermalize, "
           "sample_in_random_cell", "src/grandcan_thermalizer.cc")],
    technique="property testing against an independent evaluation of the "
    "ideal gas, inverse relations, and statistical tests of the samples",
    rule="random states; non-trivial = all chemical potentials nonzero, a "
    "resonance, or enough particles to be thermalized",
    scale=1,
    level_note=_NOTE)

check(
    "P26",
    title="Initial states of boxes and spheres",
    statement="The Box and Sphere modi create exactly the given multiplicities "
    "times the number of test particles, or Poisson distributed ones with the "
    "mean of the thermal density of every species of the gas times the "
    "volume (with lifetime and heavy flavor factors). Particles are uniform "
    "in the volume, isotropic, of the documented momentum distribution "
    "(peaked, Boltzmann, Fermi or Bose, or off equilibrium), at their pole "
    "mass or a thermal mass, at the start time, and their total momentum is "
    "0, also with the documented radial flow. Jets have the given species, "
    "momenta and positions. Spin vectors are set if and only if spins "
    "interact, orthogonal to the momenta. Particles leaving a box enter it on "
    "the opposite side, each reported as one wall crossing. Contradictory "
    "configurations are refused.",
    over=["inputs"],
    text="all options of both modi, species with and without mass, spin and "
    "width, temperatures, sizes, chemical potentials and random states",
    why="The unit tests check the refusal of a few values; numbers and "
    "distributions are not checked.",
    files=["src/boxmodus.cc", "src/spheremodus.cc",
           "src/include/smash/boxmodus.h", "src/include/smash/spheremodus.h",
           "src/distributions.cc", "src/quantumsampling.cc"],
    mech=[("BoxModus::initial_conditions, impose_boundary_conditions",
           "src/boxmodus.cc"),
          ("SphereModus::initial_conditions", "src/spheremodus.cc")],
    technique="property testing of generated configurations: exact counts and "
    "invariants, statistical tests against the documented distributions",
    rule="random configurations; non-trivial = more than one particle, "
    "chemical potentials, or particles outside of the box",
    scale=12,
    level_note=_NOTE)

check(
    "P27",
    title="Dilepton decays and the shining method",
    statement="The widths of decays into a lepton pair and of Dalitz decays "
    "follow the documented formulas: for a pair G0 (M0/m)^3 "
    "sqrt(1-4l^2/m^2) (1+2l^2/m^2) with 0 below the threshold; for Dalitz "
    "decays the form factors and the differential widths in the dilepton "
    "mass, whose integral is the partial width. During a time step dt each "
    "particle which can also decay otherwise and is unstable, not in the "
    "fluid, writes every dilepton decay mode once, of the weight "
    "dt/gamma Gamma_i/hbar times its cross section scaling factor; at the "
    "end, of the weight Gamma_i/Gamma. Dalitz decays have an additional weight "
    "whose average is 1. Each decay conserves 4-momentum, has the products of "
    "its mode on their mass shells, and is isotropic in the rest frames of "
    "the mother and the pair. Only dilepton outputs receive them; decays "
    "which are not into such pairs are refused.",
    over=["inputs"],
    text="all dilepton modes of the shipped dilepton decay modes with a pair "
    "of opposite charges, masses, momenta, formation times, time steps and "
    "random states",
    why="The unit tests check a few widths and one eta decay.",
    files=["src/decayactionsfinderdilepton.cc", "src/decayactiondilepton.cc",
           "src/decaytype.cc", "src/include/smash/formfactors.h"],
    mech=[("DecayActionsFinderDilepton::shine, shine_final",
           "src/decayactionsfinderdilepton.cc"),
          ("ThreeBodyDecayDilepton::diff_width, TwoBodyDecayDilepton::width",
           "src/decaytype.cc")],
    technique="property testing against an independent implementation of the "
    "formulas, invariants of each decay, and statistical tests",
    rule="random particles; non-trivial = at least one dilepton decay",
    scale=20,
    level_note=_NOTE)

check(
    "P28",
    title="Parameters of the experiment and its bookkeeping of energies",
    statement="The parameters of an experiment are the values given in the "
    "configuration, or the documented defaults (strings unless in a box, "
    "200 mb, or 2000 mb with d', as the maximum cross section, which is "
    "scaled; output at the end; VDF potentials switch on rest frame density "
    "derivatives). Nonpositive test particles, time steps, end times and "
    "output intervals, time steps larger than a tenth of a box, both output "
    "times and an interval, participants with potentials, photons or "
    "dileptons with only one of production and output, and a cell length or "
    "maximum cross section with the wrong criterion are refused. The mean "
    "field energy is the sum over the lattice of the energy density of the "
    "Skyrme, VDF and electromagnetic fields, times ensembles and test "
    "particles. Event information and the table of measurements report the "
    "energies, particle and scattering numbers of all ensembles. Particles "
    "given from outside are put onto their mass shells, NaN refused.",
    over=["inputs", "configurations"],
    text="random configurations with keys given or not, in all modi; lattices "
    "of currents and fields, particle lists and random parameters of the "
    "potentials",
    why="The experiment has no stable test in this build.",
    files=["src/experiment.cc", "src/include/smash/experimentparameters.h",
           "src/quantumnumbers.cc"],
    mech=[("create_experiment_parameters, calculate_mean_field_energy, "
           "format_measurements, fill_event_info, "
           "validate_and_adjust_particle_list", "src/experiment.cc")],
    technique="model-based property testing of generated configurations and "
    "independent evaluation of the sums",
    rule="random inputs; non-trivial = accepted configurations, nonzero "
    "fields, more than one particle or one off its mass shell",
    scale=10,
    level_note=_NOTE)

check(
    "P29",
    title="Photons from scatterings of pions and rho mesons and bremsstrahlung",
    statement="Exactly the listed pairs (pion with pion or rho meson, charge "
    "at most one, not two neutral pions; any two pions for bremsstrahlung) in "
    "any order produce photons, with the hadron of the conserved charge. Each "
    "photon is massless, conserves momentum and charge, comes from the "
    "interaction point, and is passed to all photon outputs, and only those. "
    "Mandelstam t is uniform in its allowed range, measured with respect to "
    "the rho meson or charged pion; the weight is the differential cross "
    "section at that t (the total one for one photon) with form factors, cut "
    "off at 200 mb, times range and scaling factors, over the hadronic cross "
    "section and number of photons. Differential cross sections integrate to "
    "the total ones. Bremsstrahlung has uniform k in [1 MeV, kinematic limit] "
    "and polar angle to the collision axis, weights from the tables at these, "
    "an isotropic pion pair, and final states in proportion to their cross "
    "sections.",
    over=["inputs"],
    text="random pairs of hadrons with random momenta, masses, cross sections "
    "and numbers of photons; random s, t and rho masses for the formulas",
    why="The existing test has one collision along the z axis per channel and "
    "compares the average weight.",
    files=["src/scatteractionphoton.cc", "src/bremsstrahlungaction.cc",
           "src/crosssectionsphoton.cc"],
    mech=[("ScatterActionPhoton::generate_final_state",
           "src/scatteractionphoton.cc"),
          ("BremsstrahlungAction::generate_final_state, "
           "sample_3body_phasespace", "src/bremsstrahlungaction.cc"),
          ("CrosssectionsPhoton", "src/crosssectionsphoton.cc")],
    technique="property testing: kinematics reconstructed from the generated "
    "photons, weights recomputed from them, statistical tests of the sampled "
    "variables, numerical integration of the cross sections",
    rule="random pairs; non-trivial = a photon reaction, nonvanishing scaling "
    "factors, more than one photon",
    scale=10,
    level_note=_NOTE)

check(
    "P30",
    title="Initial conditions for hydrodynamics: hypersurface and dynamic fluidization",
    statement="With a hypersurface of constant proper time exactly the "
    "particles whose straight trajectory crosses it within the time step, "
    "passing the rapidity and pT cuts, are removed, at the time and place of "
    "the crossing (beam velocity for frozen Fermi motion before the first "
    "collision). Dynamically exactly those become core particles, unchanged, "
    "which are within the time window, in the lattice, come from an allowed "
    "process, have completed the fraction of their formation, and where the "
    "energy density of the lattice plus background reaches the threshold plus "
    "the particle's own contribution (its mass times a Gaussian of the "
    "smearing width at its center). Core particles do not fluidize again. At "
    "the end core particles are removed, or without any the scattered ones put "
    "back to their last collision. Actions of arbitrary particles place them "
    "on straight lines and need one empty list. Valid configurations give "
    "these parameters with the documented defaults, invalid ones are refused; "
    "the lattice holds the energy-momentum tensor of all ensembles and grows "
    "with time.",
    over=["inputs", "configurations", "histories"],
    text="random particles with random histories, formation times, beams, "
    "lattices with moving fluids and backgrounds, and configurations",
    why="The existing tests have a handful of particles on chosen points.",
    files=["src/hypersurfacecrossingfinder.cc", "src/dynamicfluidfinder.cc",
           "src/fluidizationaction.cc", "src/collidermodus.cc",
           "src/include/smash/freeforallaction.h"],
    mech=[("HyperSurfaceCrossActionsFinder",
           "src/hypersurfacecrossingfinder.cc"),
          ("DynamicFluidizationFinder, build_fluidization_lattice",
           "src/dynamicfluidfinder.cc"),
          ("ColliderModus: validate_IC_kinematic_range etc.",
           "src/collidermodus.cc")],
    technique="property testing of generated particles and lattices against "
    "the analytic crossing and a reference model of the criteria",
    rule="random particles; non-trivial = a particle crosses or fluidizes, "
    "actions at the end, a valid configuration",
    scale=5,
    level_note=_NOTE)

check(
    "P31",
    title="Pauli blocking by the phase-space density of identical particles",
    statement="The phase-space density at a point and momentum is the sum over "
    "all ensembles of the particles of the same species with momenta within "
    "the averaging radius, each contributing the part of its normalized, cut "
    "Gaussian that lies in the averaging sphere, over the phase-space volume "
    "of the averaging with two spin states, the number of test particles and "
    "of ensembles. Exactly the given particles are disregarded. An action is "
    "blocked with the probability that one of its outgoing baryons or "
    "antibaryons finds its place occupied, with the incoming particles not "
    "counted; crossing a wall is never blocked and asking does not change the "
    "action.",
    over=["inputs"],
    text="random radii, particle lists in several ensembles, scatterings, "
    "wall crossings and lists of outgoing particles",
    why="The existing test has one particle at one point.",
    files=["src/pauliblocking.cc", "src/action.cc"],
    mech=[("PauliBlocker", "src/pauliblocking.cc"),
          ("Action::is_pauli_blocked", "src/action.cc")],
    technique="property testing against numerical integration of the overlap "
    "of sphere and Gaussian, and a statistical test of the blocking",
    rule="random particle lists; non-trivial = counted and not counted "
    "particles, or outgoing baryons which are not certainly blocked",
    scale=10,
    level_note=_NOTE)

check(
    "P32",
    title="Outputs of thermodynamic quantities, lattices and VTK files",
    statement="thermodynamics.dat has the documented header, an event line and "
    "a line for each output time with exactly the requested columns: the "
    "smeared Eckart density (of positive minus of negative contributions), the "
    "energy-momentum tensor, that in its rest frame with its velocity, and the "
    "currents of charge, baryon number and strangeness, at the point or, "
    "except for the density, summed without smearing, for all ensembles "
    "and particles or participants. Lattice_ASCII and Lattice_Binary files, one "
    "per quantity and event, have the documented header and the values of all "
    "nodes in order at each output time. VTK files of particles, lattices and "
    "fields have the documented names, the counter starting at zero in each "
    "event, and the values of exactly the particles and nodes. In the rest "
    "frame an ideal fluid has its energy density and pressure, the velocity is "
    "that of the fluid.",
    over=["inputs", "histories"],
    text="random particle lists of several ensembles and events, lattices of "
    "moving fluids and densities, random combinations of quantities",
    why="There is only a test of one VTK file of particles.",
    files=["src/thermodynamicoutput.cc", "src/thermodynamiclatticeoutput.cc",
           "src/vtkoutput.cc"],
    mech=[("ThermodynamicOutput", "src/thermodynamicoutput.cc"),
          ("ThermodynamicLatticeOutput", "src/thermodynamiclatticeoutput.cc"),
          ("VtkOutput", "src/vtkoutput.cc")],
    technique="property testing: the files of generated histories are parsed "
    "and compared with independently evaluated quantities",
    rule="random histories; non-trivial = more than two or three particles "
    "with visible values, lattices that are not empty",
    scale=5,
    level_note=_NOTE)

check(
    "P33",
    title="Texts, numbers, checksums, output files and locks",
    statement="Removing, splitting, joining, trimming and quoting text, filling "
    "it to a width in columns (longer texts are unchanged) and reading lines of "
    "input without comments do what they say for any text, and terminate; the "
    "rest of a line is refused. Checksums are SHA-256, however the data is "
    "handed over. A conversion of a number either keeps its value or is "
    "refused. An output file gets its name only when it was completely written "
    "and is not replaced before, unless an exception ended the writing. Of "
    "several locks on a file one at most is acquired, and the file exists as "
    "long as the lock is held.",
    over=["inputs", "histories", "schedules"],
    text="random texts with multi-byte characters, numbers at the limits of "
    "the types, data in parts, sequences of locking and releasing, threads",
    why="The existing tests have a few texts and numbers and one lock.",
    files=["src/stringfunctions.cc", "src/sha256.cc", "src/file.cc",
           "src/filelock.cc", "src/inputfunctions.cc",
           "src/include/smash/numeric_cast.h"],
    mech=[("string functions", "src/stringfunctions.cc"),
          ("line_parser, ensure_all_read",
           "src/include/smash/inputfunctions.h"),
          ("sha256::Context", "src/sha256.cc"),
          ("RenamingFilePtr", "src/file.cc"), ("FileLock", "src/filelock.cc"),
          ("numeric_cast", "src/include/smash/numeric_cast.h")],
    technique="property testing against reference implementations, stateful "
    "testing of locks and files",
    rule="random texts, numbers and sequences; non-trivial = something to "
    "remove, fill or split, refused locks, more than one block",
    scale=5,
    level_note=_NOTE)
