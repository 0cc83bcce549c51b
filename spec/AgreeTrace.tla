----------------------------- MODULE AgreeTrace -----------------------------
(* Observations [b, c, o] of real builds: build b gave call c the outcome o. *)
EXTENDS Agree, Json, IOUtils
Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == l = 1 /\ seen = <<>> /\ kernel = <<>> /\ alarm = FALSE
TNext == l <= Len(Events) /\ Observe(Events[l].c, Events[l].o) /\ l' = l + 1 /\ UNCHANGED <<kernel, alarm>>
TSpec == TInit /\ [][TNext]_<<l, seen, kernel, alarm>>
Accepted == IF TLCGet("stats").diameter - 1 = Len(Events) THEN TRUE
            ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter,
                          Events[TLCGet("stats").diameter]>>) /\ FALSE
=============================================================================
