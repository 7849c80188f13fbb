#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it to rewrite both."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/PROPOSAL/detail/PROPOSAL/"
H = "src/PROPOSAL/PROPOSAL/"
P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), technique="", note="", level="model_checking", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state, technique=technique, note=note, level=level, na=na))

TRACE = "TLA+ specification, TLC: {}; trace validation of the real code against {}"

prop("C01", "Ray-border distances of every geometry are the solid's own",
  "For every position and direction, the border distances a box, sphere or cylinder (also hollow ones) reports are those of the solid's point set along the ray: inside, or on the border moving in, the distance to the end of the current stretch of material and -1; with material only ahead, the distances to the beginning and end of the next stretch, in this order; otherwise -1 and -1.",
  ["inputs", "configurations"], "every geometry (position, measures, solid or hollow, inner and outer radius in either order), every ray, including rays starting on a border, along an axis, through edges, corners, rims and cavities",
  "The tests sample a few hundred random rays and a handful of hand-made border cases per shape; they never go through edges and corners, hardly through cavities, and check no order of the distances.",
  [S + "geometry/Box.cxx", S + "geometry/Cylinder.cxx", S + "geometry/Sphere.cxx", S + "geometry/Geometry.cxx"],
  [("case analysis over the intersections with the border surfaces", "Box/Cylinder/Sphere::DistanceToBorder"), ("swap of the radii when inner > outer", "Sphere/Cylinder constructors")],
  technique=TRACE.format("lattice of all small shapes, positions and rational directions enumerated by GeometryGen", "Geometry.tla (GeometryTrace)"),
  note="Every logged answer is compared with the stretches of the specification's solid (1e-9 relative); touching rays (chord below 1e-5 of the scale) only need a well-formed answer.")

prop("C02", "Location predicates partition the rays of a geometry",
  "Every ray is in exactly one of the states in front of, inside or behind a geometry, which are the ones given by the borders on the ray; a ray is entering (leaving) exactly if it is inside and the reversed ray behind (behind and the reversed ray inside). The closest approach to the centre lies at the projection of the centre onto the ray.",
  ["inputs", "configurations"], "every geometry and ray as in the border property, including positions exactly on a border",
  "Tests call single predicates at hand-picked points; agreement between the predicates, their mutual exclusion and the border cases are never checked.",
  [S + "geometry/Geometry.cxx", H + "geometry/Geometry.h", S + "geometry/Box.cxx", S + "geometry/Cylinder.cxx", S + "geometry/Sphere.cxx"],
  [("predicates derived from the border distances", "Geometry::IsInside/IsInfront/IsBehind/IsEntering/IsLeaving/GetLocation"), ("projection", "Geometry::DistanceToClosestApproach")],
  technique=TRACE.format("ray lattice enumerated by GeometryGen", "Geometry.tla (GeometryTrace)"),
  note="As for the border distances.")

prop("C03", "State of a recorded track at an energy or distance",
  "Asking a recorded track for the state at a recorded energy or distance returns a recorded point, asking in between returns the state reached from the preceding point by continuous losses alone, with energy, propagated distance and time between those of the two neighbours and position consistent with the distance; below or beyond the end the last point is returned and above or before the start the first point.",
  ["inputs", "histories"], "every recorded track (any sequence of continuous losses, stochastic losses and decay, including zero-length steps and repeated energies or distances) and every energy or distance asked for",
  "The tests query one simulated track at a few values, with a tolerance that hides off-by-one points; repeated distances, the order of stochastic and continuous points and the ends of the track are not covered.",
  [S + "Secondaries.cxx", H + "Secondaries.h"],
  [("binary search for the point at or before, then re-propagation", "Secondaries::GetStateForEnergy/GetStateForDistance, RePropagateEnergy/RePropagateDistance")],
  [("track_/types_", "states after each recorded step and what made it", "Secondaries.h")])

prop("C04", "A recorded track accounts for every energy loss exactly once",
  "The list of stochastic losses of a recorded track has one entry per recorded stochastic interaction, with the energy lost at that point, its interaction type, target and the parent state; the list of continuous losses has one entry per continuous step with its begin and end; together they sum up to the energy lost between the first and last point. Filters by interaction type, name or geometry return exactly the entries that satisfy them, in track order, and decay products are given only if the track ends with a decay.",
  ["inputs", "histories"], "every recorded track and every filter",
  "The tests add the losses of one random track per configuration; filters are checked for one type only and the correspondence of entries to points never.",
  [S + "Secondaries.cxx", H + "Secondaries.h", S + "particle/Particle.cxx"],
  [("difference of successive energies, by type", "Secondaries::GetStochasticLosses/GetContinuousLosses"), ("decay of the final state", "Secondaries::GetDecayProducts")],
  [("track_/types_/target_hashes_", "recorded points", "Secondaries.h")])

prop("C05", "Entry, exit and closest approach of a track in a geometry",
  "For a recorded track and a geometry, the part of the track inside the geometry, the entry point, the exit point, the point of closest approach, whether the geometry was hit and the energy lost in it all describe the same polyline of recorded points: entry and exit lie on the border where the polyline first crosses it inwards and then outwards, no point is reported when there is none, and the energy lost is that between entry (or start) and exit (or end).",
  ["inputs", "histories", "configurations"], "every recorded track and every geometry: starting in or outside, ending in or outside, missing it, touching it, passing it several times",
  "The tests use one straight track and a few spheres and cylinders around it.",
  [S + "Secondaries.cxx", H + "Secondaries.h", S + "geometry/Geometry.cxx"],
  [("scan of the track for segments that cross the border, re-propagation to the border", "Secondaries::GetEntryPoint/GetExitPoint/GetClosestApproachPoint/GetTrack/HitGeometry/GetELost")])

prop("C06", "The propagation loop takes the nearest event and stops where asked",
  "A propagation records a track that starts with the initial state and continues with one step at a time, each ending at whichever comes first: the sampled stochastic interaction, the decay, the minimal energy, a sector border or the maximal distance; energy never increases, time and distance never decrease, no recorded point exceeds the maximal distance, and the propagation ends exactly at the maximal distance, at or below the minimal energy, at a decay, or at the demanded hierarchy condition.",
  ["inputs", "histories", "configurations"], "every sequence of sampled step lengths, losses and decays, every arrangement of sectors, every maximal distance, minimal energy and hierarchy condition",
  "Tests propagate whole particles with real tables and compare averages; ties between events, borders reached by the same step and zero-length steps practically never occur there.",
  [S + "Propagator.cxx", H + "Propagator.h"],
  [("choice of the next interaction by the largest remaining energy, advance of the particle to a border", "Propagator::Propagate, AdvanceParticle, AdvanceGeometry")],
  [("track", "recorded states", "Secondaries.h")])

prop("C07", "The sector of a position is the one of highest priority, as configured",
  "At every point the current medium, cuts and densities are those of the sector of highest hierarchy among the sectors the particle is in; global settings of a configuration apply to each sector that does not override them, the processes a configuration names are the ones which happen there, with the settings given for them, and a configuration without any sector containing the particle is reported as an error.",
  ["configurations", "inputs"], "every set of sectors (nested, overlapping, adjacent, equal hierarchies) and every position and direction, also on borders; every placement of a setting",
  "Tests know one configuration with nested spheres.",
  [S + "Propagator.cxx", H + "Propagator.h"],
  [("maximum of hierarchy over the sectors that contain the particle", "Propagator::GetCurrentSector"), ("global settings with local override", "Propagator::InitializeSectorFromJSON")])

prop("C08", "Decay channels are chosen with their branching ratios",
  "A decay table chooses, for a random number, the channel whose interval of cumulated normalised branching ratios contains it: every channel's interval has exactly the width of its branching ratio, the intervals cover [0,1), a stable table decays into nothing, an empty table refuses to choose, and copies choose as the original does; every added channel stays selectable.",
  ["inputs", "configurations"], "every table (any number of channels, equal or extreme branching ratios, re-normalised ones, copied or assigned ones) and every random number in [0,1)",
  "Tests count a few thousand random decays against the ratios of one table and compare tables for equality.",
  [S + "decay/DecayTable.cxx", H + "decay/DecayTable.h"],
  [("map ordered by branching ratio, cumulated sum", "DecayTable::SelectChannel"), ("cloning of channels", "DecayTable copy constructor and assignment")],
  [("channels_", "channels with branching ratio", "DecayTable.h")],
  technique=TRACE.format("histories of two tables and all orders of four channels enumerated by DecayTableGen, long random ones", "Decays.tla (DecayTrace)"))

prop("C09", "Decays conserve energy and momentum with physical products",
  "The products of every decay have the types of the chosen channel, each lies on its mass shell with non-negative kinetic energy, and their energies and momenta add up to those of the decaying particle, wherever it was and however fast; each product starts at the place and time of the decay. The energy of the charged lepton of a leptonic decay follows its spectrum: the cumulated spectrum reaches the random number there.",
  ["inputs", "histories"], "every kinematically allowed channel and its phase-space model, every parent energy from rest to PeV, direction, position, and every state of the random number generator",
  "Tests sum energies of a few hundred decays of muon and tau.",
  [S + "decay/DecayChannel.cxx", S + "decay/LeptonicDecayChannel.cxx", S + "decay/TwoBodyPhaseSpace.cxx", S + "decay/ManyBodyPhaseSpace.cxx", S + "decay/StableChannel.cxx"],
  [("boost from the rest frame", "DecayChannel::Boost"), ("two-body momentum, Raubold-Lynch chain", "TwoBodyPhaseSpace, ManyBodyPhaseSpace"), ("spectrum by root finding", "LeptonicDecayChannel::FindRoot")],
  technique=TRACE.format("decays of all built-in and many made-up parents with recorded random numbers", "Decays.tla (DecayTrace)"))

prop("C10", "Energy cuts are the minimum of absolute and relative cut",
  "For every energy the cut is the smaller of the absolute cut divided by the energy and the relative cut, limited to the kinematic range of the process; cuts outside their ranges are refused; equal settings compare equal and have equal hashes, different ones differ.",
  ["inputs", "configurations"], "every pair of cuts (also infinite ones), every energy and kinematic range",
  "Tests check a handful of values.",
  [S + "EnergyCutSettings.cxx", H + "EnergyCutSettings.h"],
  [("minimum of both cuts", "EnergyCutSettings::GetCut"), ("validation", "EnergyCutSettings constructor")],
  technique=TRACE.format("all settings and documents over small value sets enumerated by CutsGen, random ones", "Cuts.tla (CutsTrace)"))

prop("C11", "The random sequence depends on the seed only",
  "After seeding, the sequence of random numbers is a function of the seed and the number of draws; saving and restoring the generator continues exactly at the saved place; an installed own generator is used for every draw until the default is restored; and no component of the library seeds, replaces or otherwise disturbs the generator, so that equal seeds give equal results after any history (a many-body decay with an own matrix element estimates its maximum from the sequence when it is first used).",
  ["histories", "inputs"], "every sequence of seeding, drawing, saving, restoring, installing and removing generators, and every library call in between",
  "Tests seed once and save once; no test asks whether other components reseed it.",
  [S + "math/RandomGenerator.cxx", H + "math/RandomGenerator.h", S + "secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx"],
  [("one static engine", "RandomGenerator"), ("replaceable source", "RandomGenerator::SetRandomNumberGenerator")],
  [("rng_", "engine state", "RandomGenerator.h")],
  technique="state machine RandomSource.tla model-checked by TLC; "+TRACE.format("all short histories enumerated by RandomSourceMC, long random ones with library calls", "RandomSource.tla (RandomSourceTrace)"))

prop("C12", "Registered names and hashes find the things they name",
  "Every particle looked up by type, medium looked up by hash or name and component looked up by hash is the one registered under it, whatever was registered or created in between and also as the first thing a process does; built-in particles have their type, charge and weak partner and the mass and lifetime of their antiparticle; a second definition of a type is refused unless it is the same; media names are found independently of case, and unknown names, hashes and types are refused. Derived quantities of a medium (charge and nucleon sums, molecular density, mean nucleon weight) follow from its components.",
  ["histories", "inputs", "configurations"], "every order of creating particles, media and components, every spelling of a name",
  "Tests look up each name once in a fresh process.",
  [S + "particle/ParticleDef.cxx", S + "particle/Particle.cxx", S + "medium/Medium.cxx", S + "medium/Components.cxx", S + "medium/MediumFactory.cxx"],
  [("static maps filled by constructors", "ParticleDef, Medium, Component registries"), ("lower-casing and map of creators", "MediumFactory CreateMedium")],
  technique=TRACE.format("histories of definitions, media and components enumerated by RegistriesGen, long random ones", "Registries.tla (RegistriesTrace)"),
  note="The name of a component is not part of its identity in the code; a component found by hash has the asked charge, mass number and multiplicity.")

prop("C13", "Copies are equal and independent, comparison sees every parameter",
  "A copy, clone or assigned object equals its original and behaves as it does, and later changes to one never show in the other; two objects compare equal exactly if all parameters that determine their behaviour agree, comparison is symmetric, and inequality is its negation.",
  ["inputs", "histories", "configurations"], "every kind of copyable or comparable object (geometries, media, components, vectors, density distributions, axes, polynomials, splines, decay channels, Moliere and Highland scattering, collections of propagation tools; particles, cuts, decay tables, states and integrals with their own properties), every pair of parameter sets, every order of copies and modifications",
  "Tests compare two or three hand-made objects per class, mostly changing one parameter.",
  [S + "geometry/Geometry.cxx", S + "medium/Medium.cxx", S + "density_distr/density_distr.cxx", S + "density_distr/density_splines.cxx", S + "math/Function.cxx", S + "math/Spline.cxx", S + "decay/DecayTable.cxx", S + "scattering/multiple_scattering/Parametrization.cxx"],
  [("operator== with virtual compare", "all classes"), ("clone", "all classes")],
  technique="value semantics Objects.tla model-checked by TLC (ObjectsMC); "+TRACE.format("all short histories enumerated by ObjectsMC, long random ones", "Objects.tla (ObjectsTrace)"),
  note="Behaviour is compared bit by bit at fixed probes; leptonic channels are not compared with their approximation (an existing test demands that they are equal).")

prop("C14", "Grammage and distance are inverse along any density",
  "Along every ray the grammage of a density distribution is the integral of its local mass density (the base density times the correction at the point), so it starts at zero, is additive over consecutive pieces and monotone; the distance computed for a grammage is the inverse of it, and a grammage that is not reached within the given maximal distance is answered with an error or a distance beyond it.",
  ["inputs", "configurations"], "every density distribution (homogeneous, exponential, polynomial, spline) on a Cartesian or radial axis, every position, direction and length, also against the axis and across its reference point",
  "Tests compare a few values for one ray along the axis with unit direction component.",
  [S + "density_distr/density_distr.cxx", S + "density_distr/density_exponential.cxx", S + "density_distr/density_homogeneous.cxx", S + "density_distr/density_polynomial.cxx", S + "density_distr/density_splines.cxx"],
  [("closed antiderivatives along the axis", "Density_*::Integrate/Calculate"), ("inversion by formula or Newton-Raphson", "Density_*::Correct"), ("depth and effective distance", "CartesianAxis, RadialAxis")])

prop("C15", "Configuration documents mean what they say or are refused",
  "An object built from a configuration document equals the object built from the same values by code, with the documented default for every key that is left out and keys it does not know ignored; a document with a missing required key, an unknown shape, medium, parametrization or type, a required value of the wrong type or one out of range is refused with an error instead of giving a different object, and no document crashes the program.",
  ["inputs", "configurations"], "every document for geometries, cuts, density distributions, media, vectors and the processes (parametrization and multiplier): any values, any subset of keys, any order and spelling of names",
  "Tests parse one or two documents per class.",
  [S + "geometry/GeometryFactory.cxx", S + "geometry/Sphere.cxx", S + "geometry/Cylinder.cxx", S + "geometry/Box.cxx", S + "EnergyCutSettings.cxx", S + "density_distr/density_distr.cxx", S + "density_distr/density_exponential.cxx", S + "density_distr/density_polynomial.cxx", S + "math/Cartesian3D.cxx", S + "math/Function.cxx"],
  [("constructors from JSON", "all classes"), ("parametrizations by name", "crosssection factories")],
  technique="meaning of documents Documents.tla, model-checked by TLC (DocumentsMC: any few changes to a good document mean what its remaining keys say or are refused); documents one or two edits away from good ones enumerated by DocumentsGen, built by the real constructors next to the same object built by code, validated against Documents.tla (DocumentsTrace)",
  note="Shapes without volume (equal radii, a size of zero) may be refused or not. Which exception is thrown is not claimed. Scattering documents are decided by C23 (C20 for media), sectors and global settings by C07.")

prop("C16", "Rates, energy loss and sampling describe one cross section",
  "For every parametrization, the stochastic rate on each target is the integral of the differential cross section from the cut to the upper kinematic limit, the continuous energy loss and its straggling are its integrals weighted with the loss and its square from the lower limit to the cut (for ionization the restricted mean loss of the parametrization), and component contributions add up to the medium's; the loss sampled for a fraction of the rate is the one up to which the differential cross section integrates to that fraction and the cumulated rate of a loss inverts it; processes without spectrum follow their published rate, types that are only stochastic have no continuous loss, and a multiplier scales rate and loss alike.",
  ["inputs", "configurations"], "every process and parametrization, particle, medium, energy, cut and fraction in (0,1), integrated or tabulated",
  "Tests compare with tabulated values at a few energies, in this setup only through tables; no test relates rate, loss, cut and sampled loss.",
  [S + "crosssection/CrossSectionDNDX/CrossSectionDNDXIntegral.cxx", S + "crosssection/CrossSectionDNDX/CrossSectionDNDX.cxx", S + "crosssection/CrossSectionDEDX/CrossSectionDEDXIntegral.cxx", S + "crosssection/CrossSectionDEDX/CrossSectionDEDX.cxx", S + "crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.cxx", H + "crosssection/CrossSection.h"],
  [("integration limits from the kinematic range and the cut", "CrossSectionDNDX::GetIntegrationLimits"), ("inversion by the integration routine", "CrossSectionDNDXIntegral::GetUpperLimit"), ("weighting by component", "CrossSection")],
  technique=TRACE.format("random parametrizations, cuts and targets, energies, fractions and losses", "Rates.tla (RatesTrace), which integrates the logged differential cross sections itself"),
  note="Integrals are accurate to 5e-3 (2e-2 for muon pairs by photons); tables run on a stand-in for the missing table library and are compared at 5e-2, not where the cut switches or just above the opening of the range.")

prop("C17", "Differential cross sections respect their kinematic limits",
  "For every process and energy from the lower energy limit on, the kinematic limits satisfy 0 <= lower <= upper, with upper <= 1 wherever the range is open and lower = upper where it is closed; the differential cross section is the published formula of the parametrization (bremsstrahlung, ionization, Compton, electron and muon pairs by photons and by charged particles, photonuclear interaction by real and by virtual photons with shadowing), finite strictly inside the limits and non-negative except where the published formula itself turns negative at the edge of phase space; a nucleus is hit as the sum of its nucleons where nucleons interact singly; the LPM effect is the published suppression (and never more than the free rate), with the medium's energy scale summed over all atoms of the molecule; a multiplier multiplies.",
  ["inputs", "configurations"], "every parametrization, particle, medium component, energy from threshold to 1e11 GeV and every relative loss",
  "Tests sample parametrizations at a few energies and losses against tabulated values.",
  [S + "crosssection/parametrization/Bremsstrahlung.cxx", S + "crosssection/parametrization/EpairProduction.cxx", S + "crosssection/parametrization/MupairProduction.cxx", S + "crosssection/parametrization/Ionization.cxx", S + "crosssection/parametrization/Compton.cxx", S + "crosssection/parametrization/PhotoPairProduction.cxx", S + "crosssection/parametrization/PhotoQ2Integration.cxx", S + "crosssection/parametrization/PhotoRealPhotonAssumption.cxx", S + "crosssection/parametrization/WeakInteraction.cxx"],
  [("kinematic limits", "GetKinematicLimits of each parametrization"), ("clamping of negative values", "DifferentialCrossSection of each parametrization")],
  technique=TRACE.format("random particles, media, energies and losses next to thresholds and edges", "CrossSections.tla (CrossSectionsTrace), which contains the published formulas"),
  note="Formulas compared at 1e-6 relative (pairs by charged particles, which the code integrates numerically, at 2e-3, muon pairs 5e-3; the integral over the virtuality of the photon at 2e-3, its integrand at 1e-8); the tables of the weak interaction with a nucleon are not specified, only that a nucleus is the sum of its protons and neutrons; the LPM effect at 2e-4, in pair production 2e-3.")

prop("C18", "Integration is oriented, additive and without memory",
  "Every integration method returns the integral of the function over the given range to its precision, with opposite sign for exchanged limits, zero for an empty range and sums of pieces equal to the whole; integrating up to a random fraction and asking for the upper limit returns the limit at which that fraction is reached; the result never depends on what the object integrated before, nor on which copy is used.",
  ["inputs", "histories"], "every method and substitution, every smooth integrand, pair of limits of either order, fraction in [0,1], and every history of earlier calls",
  "Tests integrate a few functions once each with fresh objects.",
  [S + "math/Integral.cxx", H + "math/Integral.h"],
  [("adaptive Romberg integration with limit reordering and substitutions", "Integral::Integrate*"), ("stored subtotal search", "Integral::IntegrateWithRandomRatio/GetUpperLimit")],
  [("iX_, iY_, max_, min_, reverse_, savedResult_, randomDo_", "state kept between the calls", "Integral.h")])

prop("C19", "Root finding, polynomials and splines return what they promise",
  "A root finder returns a point in the bracket where the function vanishes to its precision, or refuses a bracket without sign change; polynomials and their derivatives and antiderivatives are those of their coefficients; splines pass through all their points, are continuous (cubic ones smooth) in between, and derivative and antiderivative belong to the same function; sampling helpers are the quantile functions of their distributions, monotone and within their limits.",
  ["inputs"], "every bracket and function, every coefficient list, every ordered set of spline points, every argument",
  "Tests use one polynomial, one spline and one root each.",
  [S + "math/MathMethods.cxx", S + "math/Function.cxx", S + "math/Spline.cxx", H + "math/MathMethods.h"],
  [("bracketed Newton iteration and bisection", "NewtonRaphson, Bisection"), ("tridiagonal systems", "Spline::calculate_splines"), ("Horner-type evaluation", "Polynom")])

prop("C20", "Distance, time and energy integrals along a track are consistent",
  "Displacement, elapsed time and interaction and decay integrals between two energies are additive over intermediate energies, zero for equal energies and grow with the energy difference, their upper-limit functions invert them, and elapsed time is at least the light travel time for the distance; a loss-free or massless limit gives the exact formula.",
  ["inputs", "histories"], "every pair of energies, loss function and density, every sequence of queries",
  "Tests compare single values of whole simulated particles.",
  [S + "propagation_utility/Displacement.cxx", S + "propagation_utility/Time.cxx", S + "propagation_utility/Decay.cxx", S + "propagation_utility/Interaction.cxx", S + "propagation_utility/ContRand.cxx", S + "propagation_utility/PropagationUtilityIntegral.cxx", S + "propagation_utility/PropagationUtility.cxx"],
  [("utility integral and its inversion", "UtilityIntegral::Calculate/GetUpperLimit")],
  technique=TRACE.format("random worlds of processes with known loss, rate and straggling, random queries", "Utilities.tla (UtilitiesTrace)"),
  note="Answers are compared with the specification's own quadrature (1e-4; 5e-2 for times which start or end at rest, where the integrand is singular; 2e-2 for tabulated variants, which run on a stand-in for the missing table library).")

prop("C21", "A sampled interaction follows the rates of processes and components",
  "For a random number the interaction chosen is the process and component whose interval of cumulated rates contains it, in proportion to the rates; the energy loss given for it is the one of that process and component; no interaction is chosen only if no process has a positive rate.",
  ["inputs", "configurations"], "every set of processes, rates (also zero ones) and components, every random number",
  "Tests count interactions of one simulated medium.",
  [S + "propagation_utility/Interaction.cxx", S + "propagation_utility/PropagationUtility.cxx", H + "propagation_utility/Interaction.h"],
  [("cumulated sum over processes and components", "Interaction::SampleLoss, Rates")],
  technique=TRACE.format("all sets of up to three processes with rates on two components and the borders of their intervals enumerated by InteractionsGen, random ones", "Interactions.tla (InteractionsTrace)"),
  note="Borders of intervals are accepted on either side within 1e-12 of the total rate.")

prop("C22", "Secondaries of an interaction share exactly the energy lost",
  "For every stochastic interaction the products have the types and order documented for it, start at the place and time of the interaction, have unit directions and at least their rest energy, and their energies sum up to that of the particle (plus the mass of an electron of the target that takes part, less what bound it if the photoeffect frees it), the particle being left with its energy less the loss; how the products share the energy follows the distribution of the process at the random number given, their angles the formulas of the parametrization, with momentum conserved where the system is closed; the calculator of the interaction's type is used, which needs exactly as many random numbers as it announces, and types without calculator are refused.",
  ["inputs", "configurations"], "every interaction type and its secondary calculator, every primary energy and loss within the kinematic limits, every random number in (0,1)",
  "Tests draw some random secondaries of a few processes.",
  [S + "secondaries/SecondariesCalculator.cxx"] + [S + "secondaries/parametrization/" + x for x in ("bremsstrahlung/BremsNoDeflection.cxx", "bremsstrahlung/BremsEGS4Approximation.cxx", "bremsstrahlung/BremsKochMotz.cxx", "compton/NaivCompton.cxx", "epairproduction/NaivEpairProduction.cxx", "epairproduction/KelnerKokoulinPetrukhinEpairProduction.cxx", "ionization/NaivIonization.cxx", "mupairproduction/KelnerKokoulinPetrukhinMupairProduction.cxx", "photopairproduction/PhotoPairProductionTsai.cxx")],
  [("dispatch by interaction type", "SecondariesCalculator"), ("energy sharing", "CalculateSecondaries of each parametrization")],
  technique=TRACE.format("histories of adding and asking calculators from SecondariesGen, random interactions of every process, target and energy", "Secondaries.tla (SecondariesTrace: types, energies, kinematics, the shares as parts of the integrals of the published distributions)"),
  note="Shares that come from a dNdx table (pair production by photons, weak) are within 10 percent, and only from 20 times the threshold (1000 times for muon pairs), as the table runs on a stand-in for CubicInterpolation; other shares within 3 percent (1e-4 annihilation). Angles below rounding of their cosine are not compared. NaivEpairProduction is a stub in the library and not claimed.")

prop("C23", "Scattering rotates the direction and nothing else",
  "Multiple scattering and stochastic deflection return unit directions for unit directions, rotated by exactly the sampled angles, which grow with the traversed grammage and shrink with energy as the parametrization says; no scattering happens without a parametrization or at zero path length; a deflection is applied only for the interaction types that have one, and multipliers scale the angles of their own type only.",
  ["inputs", "configurations"], "every parametrization, particle, medium, energy pair, grammage, direction and random numbers, every set of deflection types and multipliers",
  "Tests scatter some particles and compare stored directions; directions close to the axes and the dispatch by type are sampled once.",
  [S + "scattering/Scattering.cxx", S + "scattering/ScatteringMultiplier.cxx", S + "scattering/multiple_scattering/Parametrization.cxx", S + "scattering/multiple_scattering/Highland.cxx", S + "scattering/stochastic_deflection/ionization/IonizNaive.cxx", S + "scattering/stochastic_deflection/bremsstrahlung/BremsTsaiApproximation.cxx", S + "scattering/stochastic_deflection/epairproduction/EpairGinneken.cxx", S + "scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx"],
  [("angles to directions", "multiple_scattering::ScatterInitialDirection"), ("map of deflections by type", "Scattering::CalculateStochasticDeflection")],
  technique=TRACE.format("configurations from ScatteringGen.tla, random particles, media, steps, interactions and random numbers next to the edges", "Scattering.tla (ScatteringTrace)"),
  note="The specification has its own Highland, Moliere and deflection formulas; angles are compared as probabilities. Tabulated variants run on a stand-in for the missing table library and are compared at 5e-2.")

prop("C24", "Vectors keep one meaning in all coordinate systems",
  "Cartesian and spherical vectors convert into each other without loss; sums, differences, scaling, scalar and vector product, norm and normalisation obey vector algebra; deflecting a direction by two angles gives a direction of the same length at exactly the polar angle to the original, with the azimuth advancing uniformly around it.",
  ["inputs"], "every pair of vectors of any scale, also on the axes and poles, every pair of angles",
  "Tests use a few hand-picked vectors; deflection is tested for some random directions only for the polar angle.",
  [S + "math/Vector3D.cxx", S + "math/Cartesian3D.cxx", S + "math/Spherical3D.cxx", H + "math/Vector3D.h"],
  [("conversion formulas", "Cartesian3D/Spherical3D constructors"), ("rotation", "Cartesian3D::deflect")])

prop("C25", "A particle state has one energy, momentum and speed",
  "Whatever sequence of settings is applied to several particle states, each setting changes the named quantity of the named state and nothing else; setting the momentum gives the energy on the mass shell of the current type, the momentum asked for belongs to the current energy and type, and a state whose type has no definition refuses both and stays as it is; equality of states compares all quantities; losses and continuous steps carry their energies, times and positions unchanged.",
  ["inputs", "histories"], "every particle type, every sequence of setting energy, momentum, position, direction, time and distance",
  "Tests set one value and read it back.",
  [S + "particle/Particle.cxx", H + "particle/Particle.h", S + "particle/ParticleDef.cxx"],
  [("the relation of energy and momentum", "ParticleState::SetMomentum/GetMomentum")],
  technique=TRACE.format("all short histories of settings on two states enumerated by ParticleStatesGen, long random ones", "ParticleStates.tla (ParticleStatesTrace)"),
  note="Relation checked to the precision left by the cancellation near the mass; momenta below the mass energy are not specified.")

prop("C26", "Cached physics is keyed by everything it depends on",
  "Two calculators (cross section of any process and parametrization, displacement, interaction, decay, time, continuous randomization, interpolation table definition, tabulated secondaries) whose answers differ because any of the values they were made of differs (particle, medium, components, cuts, parametrization, multiplier, option) have different hashes; equal configurations have equal hashes and look for tables of equal names in every process and order of creation. A table stored under the name of another configuration is therefore never used: with a store of tables filled by any history of other configurations every calculator answers exactly what it answers without, and tables that are in the store are found and not built again. The number of nodes and the energy range of the tables are part of the names of the tables.",
  ["configurations", "histories"], "every pair of configurations of particle, medium, cut, process, parametrization and options, in every order of creation",
  "Tests compare the hashes of two or three configurations and never share stored tables between configurations.",
  [S + "crosssection/parametrization/Parametrization.cxx", S + "EnergyCutSettings.cxx", S + "medium/Medium.cxx", S + "medium/Components.cxx", S + "particle/ParticleDef.cxx", H + "methods.h", S + "crosssection/CrossSectionDNDX/CrossSectionDNDX.cxx", S + "propagation_utility/TimeBuilder.cxx", S + "propagation_utility/ContRand.cxx", S + "propagation_utility/Interaction.cxx", S + "propagation_utility/Decay.cxx", S + "math/InterpolantBuilder.cxx", S + "secondaries/parametrization/weakinteraction/WeakCooperSarkarMertsch.cxx"],
  [("hash combination", "hash_combine and GetHash of each class"), ("names of stored tables", "the callers of cubic_splines::Interpolant")],
  technique="Keys.tla model-checked (KeysMC: all assignments of dependencies and keys: the store is right iff the key covers the dependencies); KeysGen enumerates process x parametrization x varied choices; two processes run them in shuffled order with and without a store of tables (in memory); KeysTrace validates every answer, hash, name and reuse",
  note="The table library CubicInterpolation is not present; a stand-in with the same interface keeps the stored tables in memory under the names PROPOSAL gives. The settings of the tables of the cross sections underneath a utility are not part of the names of its own tables (an approximation of the same quantity): not claimed. A particle type can only be used for one definition in one process; the driver forgets known particles between configurations, as if each came from a program of its own.")

prop("C27", "Interpolation tables reproduce and invert what was tabulated",
  "An interpolation table returns the tabulated function at its nodes (the centres of equal cells, or of equal ratios on a logarithmic axis; or the points it was given) and elsewhere the polynomial (or rational function) of the requested order through the nodes nearest to the point, in the coordinates (logarithms) it was built for; its inverse search does the same with arguments and values exchanged, within the range of the table. The same holds for tables of two variables, row by row. Copying, assigning, exchanging, storing and reading back (text and binary) and asking a table change no answer; the order of questions does not matter; files that are missing or cut off are refused; splines read back evaluate as those that were stored.",
  ["inputs", "histories"], "every tabulated function, number of nodes, order, axis (linear or logarithmic), question, and history of copying, storing and asking, in text or binary",
  "Tests build a few tables of one function and query in ascending order.",
  [S + "math/Interpolant.cxx", S + "math/InterpolantBuilder.cxx", S + "math/Spline.cxx", S + "math/TableWriter.cxx", H + "math/Interpolant.h", H + "math/TableWriter.h"],
  [("Neville interpolation around the nearest node", "Interpolant::Interpolate/FindLimit"), ("storage", "Interpolant::Save/Load, Spline::save")],
  technique="relation Interpolation.tla (nodes, windows, Lagrange and rational interpolation, inverse) model-checked in InterpolationMC by TLC (windows surround the point, polynomials are reproduced, inverse inverts); "+TRACE.format("all histories of operations up to length 2 (3 thorough) enumerated by InterpolationGen on random tables of seven kinds", "Interpolation.tla (InterpolationTrace)"),
  note="Values of the inverse are compared where it is well conditioned (neighbouring values differ by more than a per mille and less than a factor ten). The inverse search of two-dimensional tables from arrays and rational inverses are not compared.")

prop("C28", "Loggers have the level set last for them",
  "A logger exists once per name and returns to every user; its level is the one last set for it or globally, whichever came last, also if it is created only afterwards; logging never changes results.",
  ["histories"], "every sequence of requesting loggers and setting levels globally or by name",
  "No test covers it.",
  [S + "Logging.cxx", H + "Logging.h"],
  [("registry of loggers", "Logging::Get, SetLoglevel, SetGlobalLoglevel")],
  technique="state machine Loggers.tla model-checked by TLC; "+TRACE.format("all short histories enumerated by LoggersGen, long random ones", "Loggers.tla (LoggersTrace)"))

def write():
    sys.path.insert(0, V + "/bin")
    from checks import CHECKS
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
         "checks": [], "not_applicable": [],
         "notes": "All checks: TLA+ specifications in spec/, checked by TLC, bound to /repo by drivers in harness/ whose traces TLC validates. No hooks in /repo. See DESIGN.md."}
    for p in P:
        if p["id"] in CHECKS:
            m["checks"].append({"property": p["id"], "quick_cmd": f"python3 bin/check.py {p['id']}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check.py {p['id']}",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"] or "TLA+ specification checked by TLC; traces of the real code validated against it",
                "level": p["level"], "level_note": p["note"] or "See DESIGN.md."})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "No check built yet."})
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
write() if __name__ == "__main__" else None
