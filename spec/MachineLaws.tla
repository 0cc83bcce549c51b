----------------------------- MODULE MachineLaws ----------------------------
(***************************************************************************)
(* TLC explores every state of every machine (a few thousand) under every  *)
(* input byte and checks, per transition, the conservation law that makes  *)
(* the streaming machine equal to the declarative definition on strings of *)
(* every length:                                                           *)
(*    encoder   pending bits \o bits of the byte read                      *)
(*                 = bits of the symbols emitted \o pending bits'          *)
(*    decoder   pending bits \o bits of the symbol read                    *)
(*                 = bits of the bytes emitted \o pending bits'            *)
(* together with laws for Finish, padding positions and positions in       *)
(* templates.                                                              *)
(***************************************************************************)
EXTENDS Machines, TLC

CONSTANT Ids          \* machines to explore

VARIABLES id, st

vars == <<id, st>>

Init == id \in Ids /\ st = Init0(Machines[id])
Read(b) == LET r == Step(Machines[id], st, b)
           IN r.ok /\ st' = r.next /\ UNCHANGED id
Next == \E b \in Byte : Read(b)
Spec == Init /\ [][Next]_vars

M == Machines[id]

EncLaw ==
  M.kind = "enc" =>
    LET c == Codecs[M.c]
        sv(x) == c.inv[x]                    \* value of an emitted symbol
        f == Finish(M, st)
    IN /\ st[1] \in 0 .. c.w - 1 /\ st[2] \in 0 .. P2(st[1]) - 1
       /\ \A b \in Byte :
            LET r == Step(M, st, b)
                vals == [i \in 1 .. Len(r.out) |-> sv(r.out[i])]
            IN /\ r.ok
               /\ \A i \in 1 .. Len(r.out) : c.alpha[sv(r.out[i]) + 1] = r.out[i]
               /\ BitsOf(st[2], st[1]) \o BitsOf(b, 8)
                    = WordBits(vals, c.w) \o BitsOf(r.next[2], r.next[1])
       \* Finish: zero-fill the last symbol, then '=' to the end of the quantum
       /\ f.ok
       /\ st[1] = 0 => f.out = <<>>
       /\ st[1] > 0 =>
            /\ BitsOf(sv(f.out[1]), c.w) = BitsOf(st[2], st[1]) \o Zeros(c.w - st[1])
            /\ \A i \in 2 .. Len(f.out) : f.out[i] = cEq
            /\ LET n == PosOfPend(c, st[1])
               IN IF c.pad THEN ((8 * n) \div c.w) + Len(f.out) = c.q ELSE Len(f.out) = 1

DecLaw ==
  M.kind = "dec" =>
    LET c == Codecs[M.c]
        pos == st[1] acc == st[2] np == st[3]
        k == PendBits(c, pos)
    IN /\ pos \in 0 .. c.q - 1 /\ acc \in 0 .. P2(k) - 1 /\ np \in 0 .. c.q - 1
       /\ np > 0 => c.pad /\ CanEnd(c, M.mode, pos, acc) /\ pos + np <= c.q
       /\ \A b \in Byte :
            LET r == Step(M, st, b) IN
            /\ (M.mode = "forgiving" /\ IsWs(b)) => r.ok /\ r.next = st /\ r.out = <<>>
            /\ (c.inv[b] >= 0 /\ np = 0) =>
                  /\ r.ok
                  /\ r.next[1] = (pos + 1) % c.q /\ r.next[3] = 0
                  /\ BitsOf(acc, k) \o BitsOf(c.inv[b], c.w)
                       = WordBits(r.out, 8) \o BitsOf(r.next[2], PendBits(c, r.next[1]))
            /\ (c.inv[b] >= 0 /\ np > 0) => ~r.ok           \* nothing after padding
            /\ (r.ok /\ c.inv[b] < 0 /\ ~(M.mode = "forgiving" /\ IsWs(b)))
                  => b = cEq /\ r.next[3] = np + 1 /\ r.next[1] = pos /\ r.out = <<>>
       \* acceptance: only at the end of an encodable quantum; strict: no stray
       \* bits; padded codecs: quantum complete; unpadded: no '=' ever consumed
       /\ LET f == Finish(M, st) IN
          f.ok => /\ f.out = <<>>
                  /\ pos = 0 \/ PendBits(c, pos) < c.w
                  /\ M.mode = "strict" => acc = 0
                  /\ (c.pad /\ M.mode = "strict") => (pos = 0 /\ np = 0) \/ pos + np = c.q
                  /\ np > 0 => pos + np = c.q
                  /\ ~c.pad => np = 0

ParseLaw ==
  M.kind = "uparse" =>
    /\ st[1] # {} /\ st[1] \subseteq M.names
    /\ \A f \in st[1] : st[2] <= Len(Templates[f])
    /\ st[3] >= 0 <=> \E f \in st[1] :
          Len(SelectSeq(SubSeq(Templates[f], 1, st[2]), LAMBDA x : x = HEX)) % 2 = 1

Utf32Law ==
  M.kind = "utf32" =>
     /\ st[1] \in 0 .. 3 /\ st[2] \in 0 .. 1
     /\ Finish(M, st).ok <=> st[1] = 0

Laws == EncLaw /\ DecLaw /\ ParseLaw /\ Utf32Law
=============================================================================
