---------------------------- MODULE ScatteringGen ----------------------------
(* Configurations of the scattering: model, deflections by name or default,  *)
(* multipliers, in every combination of a few of each; also unknown names.   *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
VARIABLE x
Models == {"", "Highland", "HIGHLAND", "moliere", "MoliereInterpol", "HighlandIntegral", "NoScattering", "noscattering", "lynch", " highland"}
Deflections == {<< >>, <<"IonizNaive">>, <<"defaultIoniz">>, <<"DEFAULTbrems", "ioniznaive">>, <<"BremsGinneken", "defaultPhotonuclear", "epairginneken">>,
                <<"PhotoGinneken", "bremsTsaiApproximation", "defaultioniz", "defaultEpair">>, <<"defaultCompton">>, <<"Rutherford">>, <<"default">>, <<"defaultParticle">>}
MS == {"", "0", "0.5", "1", "2"}
SD == {<< >>, <<[t |-> "Brems", v |-> "0.5"]>>, <<[t |-> "ioniz", v |-> "2"], [t |-> "EPAIR", v |-> "0"]>>, <<[t |-> "photonuclear", v |-> "1.5"], [t |-> "Compton", v |-> "3"]>>, <<[t |-> "photon", v |-> "1"]>>}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[ms |-> m, mm |-> f, sd |-> d, sm |-> s] : m \in Models, f \in MS, d \in Deflections, s \in SD}))
Init == x = 0
Next == UNCHANGED x
=============================================================================
