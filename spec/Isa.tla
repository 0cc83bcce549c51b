--------------------------------- MODULE Isa --------------------------------
(***************************************************************************)
(* Instruction sets: what a CPU announces, what the library may report and *)
(* execute, and how it chooses an implementation.                          *)
(*                                                                         *)
(* Part 1 is the selection machine: an operation offers implementations    *)
(* for some sets, is asked for one on a CPU, and picks the first enabled.  *)
(* TLC checks Sound (never an unannounced set), Total (always something),  *)
(* Monotone (a CPU that announces more never gets a poorer choice).        *)
(* Part 2 (IsaTrace) accepts observations of the real library.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Sets  == <<"sse2", "ssse3", "sse4.1", "avx2">>           \* by rank
Names == {Sets[i] : i \in 1 .. 4}
Foreign == {"neon", "simd128"}                           \* never on x86
Rank(s) == CHOOSE i \in 1 .. 4 : Sets[i] = s

\* real CPUs announce a prefix of Sets; any subset may be simulated
Cpus   == SUBSET Names
Chains == {{Sets[i] : i \in 1 .. n} : n \in 0 .. 4}

\* the sets an announced set brings along
Implied(s) == {Sets[i] : i \in 1 .. Rank(s)}
\* dispatch offers, best first
Offers == {<<"avx2", "ssse3">>, <<"avx2", "sse4.1">>, <<"avx2", "ssse3", "sse2">>, <<"avx2", "sse4.1", "sse2">>, <<"avx2", "sse2">>}

RECURSIVE Choose(_, _)
Choose(offer, cpu) ==
  IF offer = <<>> THEN "fallback"
  ELSE IF Head(offer) \in cpu THEN Head(offer) ELSE Choose(Tail(offer), cpu)

\* what may be reported present on a CPU
MayAnnounce(isa, cpu) == isa = "fallback" \/ isa \in cpu

\* instruction classes and the announcement each needs; the x86-64 baseline
\* (SSE2) needs none.  Classes not listed are never allowed.
Needs == [c \in {"sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "lzcnt", "bmi", "vex"} |->
            CASE c \in {"sse3", "ssse3"} -> "ssse3"
              [] c = "sse4.1"            -> "sse4.1"
              [] OTHER                   -> "avx2"]
MayExecute(c, cpu) == c \in DOMAIN Needs /\ \E s \in cpu : Needs[c] \in Implied(s)

----------------------------------------------------------------------------
VARIABLES cpu, offer, choice
vars == <<cpu, offer, choice>>
None == "none"
Init == cpu \in Cpus /\ offer \in Offers /\ choice = None
Select == choice = None /\ choice' = Choose(offer, cpu) /\ UNCHANGED <<cpu, offer>>
\* a further call keeps the choice
Call == choice # None /\ UNCHANGED vars
Next == Select \/ Call
Spec == Init /\ [][Next]_vars /\ WF_vars(Select)

Sound == choice \in Names => choice \in cpu /\ MayAnnounce(choice, cpu)
Value(c) == IF c = "fallback" THEN 0 ELSE Rank(c)
Monotone == \A more \in Cpus : cpu \subseteq more /\ choice # None
                => Value(Choose(offer, more)) >= Value(choice)
Stable == [][choice # None => choice' = choice]_vars
Total == <>(choice # None)
\* on a CPU that announces a chain, the classes allowed grow with the chain
Graded == \A a \in Chains, b \in Chains : a \subseteq b =>
            \A c \in DOMAIN Needs : MayExecute(c, a) => MayExecute(c, b)
=============================================================================
