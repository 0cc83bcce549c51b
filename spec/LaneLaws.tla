------------------------------ MODULE LaneLaws ------------------------------
(***************************************************************************)
(* The limb-wise definitions of Lanes are arithmetic: in small bases and   *)
(* lane widths they agree with the integers, for all values.               *)
(***************************************************************************)
EXTENDS Lanes
CONSTANTS B, K        \* base (even), limbs
VARIABLES a, b
Limbs == [1 .. K -> 0 .. B - 1]
Init == a \in Limbs /\ b \in Limbs
Next == UNCHANGED <<a, b>>
RECURSIVE Pow(_, _), Val(_)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
Val(x) == IF x = <<>> THEN 0 ELSE Head(x) + B * Val(Tail(x))
M == Pow(B, K)
SVal(x) == IF Val(x) < M \div 2 THEN Val(x) ELSE Val(x) - M
Is(f, v) == Val(Ripple(f, a, b, B)) = v % M
AllOnes == M - 1
Arithmetic ==
  /\ Is("add", Val(a) + Val(b)) /\ Is("sub", Val(a) - Val(b))
  /\ Is("subsu", Clamp(Val(a) - Val(b), 0, M)) /\ Is("subss", Clamp(SVal(a) - SVal(b), -(M \div 2), M \div 2 - 1))
  /\ Is("eq", IF a = b THEN AllOnes ELSE 0)
  /\ Is("ltu", IF Val(a) < Val(b) THEN AllOnes ELSE 0) /\ Is("lts", IF SVal(a) < SVal(b) THEN AllOnes ELSE 0)
  /\ Is("maxu", IF Val(a) < Val(b) THEN Val(b) ELSE Val(a)) /\ Is("minu", IF Val(a) < Val(b) THEN Val(a) ELSE Val(b))
  /\ Is("maxs", IF SVal(a) < SVal(b) THEN Val(b) ELSE Val(a)) /\ Is("mins", IF SVal(a) < SVal(b) THEN Val(a) ELSE Val(b))
  /\ Val(Mul(a, b, B)) = (Val(a) * Val(b)) % M
  /\ Val(MulHi(a, b, FALSE, B)) = (Val(a) * Val(b)) \div M
  /\ Val(MulHi(a, b, TRUE, B)) = ((SVal(a) * SVal(b)) \div M) % M
\* K even: neighbours multiplied and added
H == K \div 2
HalfV(x, j) == LET v == Val(SubSeq(x, (j - 1) * H + 1, j * H)) IN IF v < Pow(B, H) \div 2 THEN v ELSE v - Pow(B, H)
MaddLaw == K % 2 = 0 => Val(Madd(a, b, B)) = (HalfV(a, 1) * HalfV(b, 1) + HalfV(a, 2) * HalfV(b, 2)) % M
=============================================================================
