----------------------------- MODULE DispatchGen ----------------------------
(* writes every schedule of three threads *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
D == INSTANCE DispatchTrace WITH l <- 1, where <- <<>>
ASSUME LET q == SetToSeq(D!Schedules) IN ndJsonSerialize(IOEnv.OUT, q) /\ PrintT(<<"schedules", Len(q)>>)
=============================================================================
