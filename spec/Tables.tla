------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Writes the specification out for the conformance driver:                *)
(*  - the machines wanted as transition tables: for each state, for each   *)
(*    of the 256 bytes, successor (0: reject) and output; for each state   *)
(*    acceptance and final output;                                         *)
(*  - the operation table of module Api;                                   *)
(*  - codec constants and length laws.                                     *)
(***************************************************************************)
EXTENDS Api, Req

RECURSIVE Closure(_, _, _)
Closure(m, seen, frontier) ==
  IF frontier = {} THEN seen
  ELSE LET new == UNION { { r.next : r \in {x \in {Step(m, s, b) : b \in Byte} : x.ok} } : s \in frontier } \ seen
       IN Closure(m, seen \cup new, new)

Table(id) ==
  LET m   == Machines[id]
      set == Closure(m, {Init0(m)}, {Init0(m)})
      seq == <<Init0(m)>> \o SetToSeq(set \ {Init0(m)})
      idx == [s \in set |-> CHOOSE i \in 1 .. Len(seq) : seq[i] = s]
      row(s) == [b \in 1 .. 256 |-> LET r == Step(m, s, b - 1)
                                    IN IF r.ok THEN <<idx[r.next]>> \o r.out ELSE <<0>>]
  IN [rec |-> "machine", id |-> id, n |-> Len(seq),
      rows |-> [i \in 1 .. Len(seq) |-> row(seq[i])],
      fin |-> [i \in 1 .. Len(seq) |->
                 LET f == Finish(m, seq[i]) IN IF f.ok THEN <<1>> \o f.out ELSE <<0>>]]

\* unit-reversing machines: the permutation of one unit says it all
Perm(id) == [rec |-> "perm", id |-> id,
             perm |-> SwapUnits([i \in 1 .. Machines[id].k |-> i], Machines[id].k)]

One(id) == IF Machines[id].kind = "swap" THEN Perm(id) ELSE Table(id)

\* encoded length of n bytes: lens[n % qb] + (n \div qb) * q
CodecFacts(c) == [rec |-> "codec", id |-> c, alpha |-> Codecs[c].alpha,
                  q |-> Codecs[c].q, qb |-> QBytes(Codecs[c]),
                  lens |-> [n \in 1 .. QBytes(Codecs[c]) |-> EncLen(Codecs[c], n - 1)]]

OpFacts(op) == [rec |-> "op", id |-> op, m |-> OpTable[op].m, form |-> OpTable[op].form,
                pol |-> OpTable[op].pol, unit |-> OpTable[op].unit]

Seqd(F(_), S) == LET q == SetToSeq(S) IN [i \in 1 .. Len(q) |-> F(q[i])]

ASSUME ndJsonSerialize(IOEnv.OUT,
          Seqd(OpFacts, OpNames) \o Seqd(CodecFacts, CodecIds) \o Seqd(One, ReqIds))
ASSUME PrintT(<<"machines", Cardinality(ReqIds), "ops", Cardinality(OpNames)>>)
=============================================================================
