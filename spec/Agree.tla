-------------------------------- MODULE Agree -------------------------------
(***************************************************************************)
(* One library, many builds: an operation's outcome belongs to the call,   *)
(* not to the build that ran it.  The state is what has been observed so   *)
(* far; a build may run any call at any time, the first outcome of a call  *)
(* is open, every later one of any build must be the same.                 *)
(*                                                                         *)
(* Model checking (Agree.cfg): builds are implementations with a choice of *)
(* kernels; TLC shows that Consistent holds for histories of any length    *)
(* exactly when all kernels reachable by the builds agree (Faithful).      *)
(* AgreeTrace applies the same action to observations of real builds.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

VARIABLES seen        \* call -> outcome, for the calls made so far
Observe(c, o) ==
  /\ c \in DOMAIN seen => seen[c] = o
  /\ seen' = IF c \in DOMAIN seen THEN seen ELSE (c :> o) @@ seen

----------------------------------------------------------------------------
CONSTANTS Builds, Calls, Outcomes
VARIABLES kernel,     \* build -> call -> outcome: what its code computes
          alarm       \* an observation was not allowed
Init == kernel \in [Builds -> [Calls -> Outcomes]] /\ seen = <<>> /\ alarm = FALSE
Run(b, c) == LET o == kernel[b][c] IN
  /\ UNCHANGED kernel
  /\ \/ Observe(c, o) /\ UNCHANGED alarm
     \/ ~(c \in DOMAIN seen => seen[c] = o) /\ alarm' = TRUE /\ UNCHANGED seen
Next == \E b \in Builds, c \in Calls : Run(b, c)
Spec == Init /\ [][Next]_<<seen, kernel, alarm>> /\ \A b \in Builds, c \in Calls : WF_<<seen, kernel, alarm>>(Run(b, c))

Faithful == \A b1, b2 \in Builds, c \in Calls : kernel[b1][c] = kernel[b2][c]
\* no alarm on builds that agree, and an alarm in the end on builds that do not
NoFalseAlarm == alarm => ~Faithful
Detected == ~Faithful ~> alarm
=============================================================================
