----------------------------- MODULE HistoryImpl ----------------------------
(***************************************************************************)
(* How the appending forms work, step by step: a container is memory, a    *)
(* length and a capacity; a call decides the length m of the result,       *)
(* reserves, writes into the spare capacity in any order and amount, and   *)
(* sets the length on success.  A failure leaves whatever was written in   *)
(* the spare capacity.  TLC checks that this refines the History step on   *)
(* one container (Refines), stays inside the capacity (InBounds), and that *)
(* two plausible mistakes do not:                                          *)
(*   "early"  the length is set before the result is known                 *)
(*   "from0"  the result is written at the start of the container          *)
(*   "short"  the capacity reserved counts from the start of the container *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Variant, MaxCap
Bytes == {1, 2}
Results == {<<>>} \cup {<<a>> : a \in Bytes} \cup {<<a, b>> : a \in Bytes, b \in Bytes}

VARIABLES mem, len, cap, pc, want, ok, todo
vars == <<mem, len, cap, pc, want, ok, todo>>
Old(n) == [i \in 1 .. n |-> 0]
Init == /\ len \in 0 .. 2 /\ cap \in len .. 3 /\ mem = Old(cap)
        /\ pc = "idle" /\ want = <<>> /\ ok = TRUE /\ todo = {}

Start == /\ pc = "idle"
         /\ want' \in Results /\ ok' \in BOOLEAN
         /\ pc' = "reserve" /\ UNCHANGED <<mem, len, cap, todo>>
Needed == IF Variant = "short" THEN Len(want) ELSE len + Len(want)
Base == IF Variant = "from0" THEN 0 ELSE len
Reserve == /\ pc = "reserve"
           /\ cap' \in {c \in 0 .. MaxCap : c >= cap /\ c >= Needed /\ (cap >= Needed => c = cap)}
           /\ mem' = mem \o [i \in 1 .. cap' - cap |-> 9]
           /\ todo' = 1 .. Len(want)
           /\ pc' = "write"
           /\ len' = IF Variant = "early" THEN len + Len(want) ELSE len
           /\ UNCHANGED <<want, ok>>
\* the place of result byte i is decided by the length at the call's start
At(i) == (IF Variant = "early" THEN len - Len(want) ELSE Base) + i
Write == /\ pc = "write"
         /\ \E i \in todo : /\ todo' = todo \ {i}
                            /\ mem' = IF At(i) <= cap THEN [mem EXCEPT ![At(i)] = IF ok THEN want[i] ELSE 7] ELSE mem
                            /\ pc' = IF At(i) <= cap THEN pc ELSE "outside"
         /\ UNCHANGED <<len, cap, want, ok>>
\* the invalid byte may be noticed at any moment
Fail == pc = "write" /\ ~ok /\ pc' = "idle" /\ UNCHANGED <<mem, len, cap, want, ok, todo>>
Finish == /\ pc = "write" /\ ok /\ todo = {}
          /\ len' = IF Variant = "early" THEN len ELSE len + Len(want)
          /\ pc' = "idle" /\ UNCHANGED <<mem, cap, want, ok, todo>>
Next == Start \/ Reserve \/ Write \/ Fail \/ Finish
Spec == Init /\ [][Next]_vars

InBounds == pc # "outside" /\ len <= cap /\ Len(mem) = cap
Bound == len <= 4

\* ---- the abstract step: contents change only when a call returns ----------
Data == SubSeq(mem, 1, len)
Refines ==
  [][ \/ Data' = Data
      \/ pc = "write" /\ pc' = "idle" /\ ok /\ Data' = Data \o want]_vars
=============================================================================
