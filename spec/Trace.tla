-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: events recorded from the real library, one per call,  *)
(* are accepted one by one iff each is an outcome module Api allows.  The  *)
(* outcome is computed from the DECLARATIVE definitions, not from the      *)
(* machines, so this binding is independent of the tables.                 *)
(*                                                                         *)
(* event  [op, src, dlen, tag, out]; for form "length" dlen is the length  *)
(*        the call announced.                                              *)
(***************************************************************************)
EXTENDS Api, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l                \* position in the trace
Init == l = 1

Allowed(e) ==
  IF OpTable[e.op].form = "length"
  THEN LET r == Declared(OpTable[e.op].m, e.src)
       IN /\ e.tag \in {"ok", "err"}
          /\ r.ok => e.tag = "ok" /\ e.dlen = Len(r.out)
  ELSE LET o == Outcome(e.op, e.src, e.dlen)
       IN e.tag = o.tag /\ e.out = o.out

\* one action per kind of outcome, so that coverage shows each was exercised
Is(tag) == l <= Len(Events) /\ Events[l].tag = tag /\ Allowed(Events[l]) /\ l' = l + 1
Succeeds == Is("ok")
Fails    == Is("err")
Panics   == Is("panic")
Next == Succeeds \/ Fails \/ Panics
Spec == Init /\ [][Next]_l

Accepted == IF TLCGet("stats").diameter - 1 = Len(Events) THEN TRUE
            ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter,
                          Events[TLCGet("stats").diameter]>>) /\ FALSE
=============================================================================
