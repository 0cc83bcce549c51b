------------------------------ MODULE LaneTrace -----------------------------
(* Events [op, args, out]: calls of real primitives, accepted one by one. *)
EXTENDS LaneOps, Json, IOUtils
Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Next == l <= Len(Events) /\ Matches(OpOf[Events[l].op], Events[l].args, Events[l].out) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Events) THEN TRUE
            ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter,
                          Events[TLCGet("stats").diameter]>>) /\ FALSE
=============================================================================
