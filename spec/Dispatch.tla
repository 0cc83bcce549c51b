------------------------------- MODULE Dispatch ------------------------------
(***************************************************************************)
(* Run-time selection of an implementation by the first call, under a      *)
(* relaxed memory model.                                                   *)
(*                                                                         *)
(* Each location has a modification order mo[loc]; a thread may read any   *)
(* entry not older than the newest it has read or written (coherence), and *)
(* nothing orders different locations (all accesses are Relaxed).          *)
(*                                                                         *)
(* Proto "ifunc"  one word: the function pointer, initially the resolver.  *)
(*                A call loads it and calls what it loaded; the resolver   *)
(*                queries the CPU, stores the choice and calls it.         *)
(*       "flag"   (for contrast, wrong) a ready flag and a pointer in two  *)
(*                words: a thread that sees the flag may still see the old *)
(*                pointer.                                                 *)
(*       "early"  (for contrast, wrong) the resolver publishes its first   *)
(*                candidate before it has asked the CPU about it.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Threads, MaxCalls, Proto

I == INSTANCE Isa WITH cpu <- {}, offer <- <<>>, choice <- "none"
Offer == <<"avx2", "sse4.1">>
Resolver == "resolver"

VARIABLES cpu,                 \* what this CPU announces
          mo, view,            \* memory
          pc, fn,              \* program counter, function about to be called
          todo,                \* calls still to make
          resolved             \* how often a thread ran the resolver
vars == <<cpu, mo, view, pc, fn, todo, resolved>>
Locs == {"p", "f"}
Best == I!Choose(Offer, cpu)

Init == /\ cpu \in I!Chains
        /\ mo = [p |-> <<Resolver>>, f |-> <<"no">>]
        /\ view = [t \in Threads |-> [x \in Locs |-> 1]]
        /\ pc = [t \in Threads |-> "idle"]
        /\ fn = [t \in Threads |-> "none"]
        /\ todo = [t \in Threads |-> MaxCalls]
        /\ resolved = [t \in Threads |-> 0]

Read(t, x, i) == i \in view[t][x] .. Len(mo[x]) /\ view' = [view EXCEPT ![t][x] = i]
Write(t, x, v) == /\ mo' = [mo EXCEPT ![x] = Append(@, v)]
                  /\ view' = [view EXCEPT ![t][x] = Len(mo[x]) + 1]
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]

(* a call begins: load the pointer *)
Load(t) ==
  /\ pc[t] = "idle" /\ todo[t] > 0 /\ Proto \in {"ifunc", "early"}
  /\ \E i \in 1 .. Len(mo.p) :
        /\ Read(t, "p", i)
        /\ fn' = [fn EXCEPT ![t] = mo.p[i]]
        /\ Goto(t, IF mo.p[i] = Resolver THEN "resolving" ELSE "calling")
  /\ UNCHANGED <<cpu, mo, todo, resolved>>
LoadFlag(t) ==
  /\ pc[t] = "idle" /\ todo[t] > 0 /\ Proto = "flag"
  /\ \E i \in 1 .. Len(mo.f) : Read(t, "f", i) /\ Goto(t, IF mo.f[i] = "yes" THEN "ready" ELSE "resolving")
  /\ UNCHANGED <<cpu, mo, fn, todo, resolved>>
LoadPtr(t) ==
  /\ pc[t] = "ready"
  /\ \E i \in 1 .. Len(mo.p) : Read(t, "p", i) /\ fn' = [fn EXCEPT ![t] = mo.p[i]]
  /\ Goto(t, "calling")
  /\ UNCHANGED <<cpu, mo, todo, resolved>>

(* the resolver: ask the CPU, then publish the choice, then call it *)
Query(t) ==
  /\ pc[t] = "resolving"
  /\ IF Proto = "early" THEN Write(t, "p", Head(Offer)) ELSE UNCHANGED <<mo, view>>
  /\ fn' = [fn EXCEPT ![t] = Best]
  /\ resolved' = [resolved EXCEPT ![t] = @ + 1]
  /\ Goto(t, "publish")
  /\ UNCHANGED <<cpu, todo>>
Publish(t) ==
  /\ pc[t] = "publish"
  /\ Write(t, "p", fn[t])
  /\ Goto(t, IF Proto = "flag" THEN "raise" ELSE "calling")
  /\ UNCHANGED <<cpu, fn, todo, resolved>>
Raise(t) ==
  /\ pc[t] = "raise"
  /\ Write(t, "f", "yes")
  /\ Goto(t, "calling")
  /\ UNCHANGED <<cpu, fn, todo, resolved>>
Finish(t) ==
  /\ pc[t] = "calling"
  /\ Goto(t, "idle")
  /\ todo' = [todo EXCEPT ![t] = @ - 1]
  /\ UNCHANGED <<cpu, mo, view, fn, resolved>>

Thread(t) == Load(t) \/ LoadFlag(t) \/ LoadPtr(t) \/ Query(t) \/ Publish(t) \/ Raise(t) \/ Finish(t)
Next == \E t \in Threads : Thread(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Thread(t))

\* what is called is a finished choice, and one this CPU can run
Callable == \A t \in Threads : pc[t] = "calling" => fn[t] = Best /\ I!MayAnnounce(fn[t], cpu)
\* once published, the choice never changes
Settled == \A i \in 2 .. Len(mo.p) : mo.p[i] = Best
\* a thread that has completed a call never resolves again
Once == \A t \in Threads : resolved[t] <= 1
\* every call returns
Returns == <>(\A t \in Threads : todo[t] = 0 /\ pc[t] = "idle")
Memory == \A t \in Threads, x \in Locs : view[t][x] \in 1 .. Len(mo[x])
=============================================================================
