------------------------------ MODULE IsaTrace ------------------------------
(* Observations of the real library under a simulated CPU:                  *)
(*  announce  isa reported present (value) on a CPU announcing cpu          *)
(*  native    a closure handed to native execution: how often it ran, how   *)
(*            often two nested ones ran, did everything come back, and the  *)
(*            instruction classes executed                                  *)
(*  run       instruction classes executed by calls of op                   *)
EXTENDS Isa, Json, IOUtils, TLC

Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Range(s) == {s[i] : i \in 1 .. Len(s)}

Announced(e) == e.k = "announce" /\ (e.value => MayAnnounce(e.isa, Range(e.cpu)))
Ran(e)       == e.k = "native" /\ e.runs = 1 /\ e.nested = 2 /\ e.returned
                /\ \A c \in Range(e.classes) : MayExecute(c, Range(e.cpu))
Executed(e)  == e.k = "run" /\ e.n > 0 /\ \A c \in Range(e.classes) : MayExecute(c, Range(e.cpu))

TInit == l = 1 /\ cpu = {} /\ offer = <<>> /\ choice = None
Is(A(_)) == l <= Len(Events) /\ A(Events[l]) /\ l' = l + 1 /\ UNCHANGED vars
TAnnounce == Is(Announced)
TNative   == Is(Ran)
TRun      == Is(Executed)
TNext == TAnnounce \/ TNative \/ TRun
TSpec == TInit /\ [][TNext]_<<l, cpu, offer, choice>>
Accepted == IF TLCGet("stats").diameter - 1 = Len(Events) THEN TRUE
            ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter,
                          Events[TLCGet("stats").diameter]>>) /\ FALSE
=============================================================================
