---------------------------- MODULE DispatchTrace ---------------------------
(***************************************************************************)
(* Schedules for, and observations of, racing first calls.                 *)
(*                                                                         *)
(* A schedule is a sequence of commands: "S" starts the next call of a     *)
(* thread, "R" lets a thread held up inside the resolver go on.  After     *)
(* each command the driver observes the thread:                            *)
(*   done    its call has returned                                         *)
(*   paused  it is inside the resolver (at its first feature query)        *)
(*   waits   neither: it waits for another thread that is in the resolver  *)
(*   busy    it was still waiting when asked to start another call         *)
(* and whether every result so far was the sequential one (good).  "E"     *)
(* ends the trial: everything must have returned.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

Thr == 1 .. 3
Prog == <<"S", "R", "S">>       \* commands of each thread, in order
RECURSIVE Inter(_)
Inter(at) ==
  IF \A t \in Thr : at[t] > Len(Prog) THEN {<<>>}
  ELSE UNION { {<<Prog[at[t]] \o ToString(t)>> \o r : r \in Inter([at EXCEPT ![t] = @ + 1])}
                  : t \in {u \in Thr : at[u] <= Len(Prog)} }
Schedules == Inter([t \in Thr |-> 1])

----------------------------------------------------------------------------
Events == IF "TRACE" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.TRACE) ELSE <<>>
VARIABLES l, where            \* where[t]: "out", "resolver", "waiting"
Fresh == [t \in Thr |-> "out"]
TInit == l = 1 /\ where = Fresh
Ev == Events[l]
At == IF Ev.first THEN Fresh ELSE where
Others(t) == \E u \in Thr \ {t} : At[u] = "resolver"
Step(w) == where' = w /\ l' = l + 1

Enter == /\ Ev.c = "S" /\ Ev.obs = "paused" /\ At[Ev.t] = "out"
         /\ Step([At EXCEPT ![Ev.t] = "resolver"])
Straight == /\ Ev.c = "S" /\ Ev.obs = "done" /\ At[Ev.t] = "out" /\ Step(At)
Hold == /\ Ev.obs = "waits" /\ Others(Ev.t) /\ Step([At EXCEPT ![Ev.t] = "waiting"])
Busy == /\ Ev.c = "S" /\ Ev.obs = "busy" /\ At[Ev.t] \in {"waiting", "resolver"} /\ Step(At)
\* letting a thread go also lets those go that waited for it
Leave == /\ Ev.c = "R" /\ Ev.obs = "done"
         /\ Step([t \in Thr |-> IF t = Ev.t \/ At[t] = "waiting" THEN "out" ELSE At[t]])
End == /\ Ev.c = "E" /\ Ev.obs = "end" /\ Step(Fresh)
TNext == l <= Len(Events) /\ Ev.good /\ (Enter \/ Straight \/ Hold \/ Busy \/ Leave \/ End)
TSpec == TInit /\ [][TNext]_<<l, where>>
Accepted == IF TLCGet("stats").diameter - 1 = Len(Events) THEN TRUE
            ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter,
                          Events[TLCGet("stats").diameter]>>) /\ FALSE
=============================================================================
