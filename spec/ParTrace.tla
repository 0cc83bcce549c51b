------------------------------ MODULE ParTrace ------------------------------
(* Observed calls: n source bytes, pool of p threads, pad, dlen; outcome tag, *)
(* length, whether the text was the sequential one, whether anything behind   *)
(* it was touched.                                                            *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
P == INSTANCE Par WITH MaxN <- 0, MaxP <- 0, Grain <- 4096, n <- 0, p <- 1, pad <- FALSE, dlen <- 0,
                       dst <- <<>>, todo <- {}, work <- <<>>, tag <- ""
Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Good(e) == /\ e.tag = P!Outcome(e.n, e.pad, e.dlen)
           /\ e.tag = "ok" => e.len = P!EncLen(e.n, e.pad) /\ e.same /\ ~e.excess
Next == l <= Len(Events) /\ Good(Events[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Events) THEN TRUE
            ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter,
                          Events[TLCGet("stats").diameter]>>) /\ FALSE
=============================================================================
