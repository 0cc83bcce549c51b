---------------------------- MODULE HistoryTrace ----------------------------
(* Recorded histories: each event is a step with what the real containers    *)
(* held afterwards.  "new" starts a history with empty containers.           *)
EXTENDS History, Json, IOUtils
Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<l, box, last>>
Held(e) == [v0 |-> e.v0, v1 |-> e.v1, s0 |-> e.s0, s1 |-> e.s1]
TInit == l = 1 /\ box = Empty /\ last = [k |-> "none"]
New  == l <= Len(Events) /\ Events[l].k = "new" /\ box' = Empty /\ l' = l + 1 /\ UNCHANGED last
Take(k) == LET e == Events[l] IN
        /\ l <= Len(Events) /\ e.k = k
        /\ Enabled(box, e)
        /\ e.tag = Tag(box, e)
        /\ box' = After(box, e)
        /\ box' = Held(e)
        /\ l' = l + 1 /\ UNCHANGED last
Appended == Take("append")
Assigned == Take("assign")
Other  == \E k \in {"push", "truncate", "clear", "take", "reserve", "shrink", "copy", "bytes", "text"} : Take(k)
TNext == New \/ Appended \/ Assigned \/ Other
TSpec == TInit /\ [][TNext]_tvars
Accepted == IF TLCGet("stats").diameter - 1 = Len(Events) THEN TRUE
            ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter,
                          Events[TLCGet("stats").diameter]>>) /\ FALSE
NoSteps(b) == {}
=============================================================================
