------------------------------- MODULE Lengths ------------------------------
(***************************************************************************)
(* Length laws of the RFC 4648 encodings, for ALL n: Apalache discharges   *)
(* them over unbounded integers (n, m are arbitrary naturals; there is one *)
(* state, so --length=0 is a proof), TLC re-checks them for small n.       *)
(*                                                                         *)
(* They justify the closed form the conformance driver evaluates at any    *)
(* machine word:  EncLen(n) = lens[n % qb] + (n \div qb) * q,              *)
(* and the largest byte count a text of m symbols can decode to.           *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  n,
  \* @type: Int;
  m

\* @type: (Int, Int) => Int;
SymLenW(w, x) == (8 * x + (w - 1)) \div w
\* whole quanta of q symbols when padded
\* @type: (Int, Int, Bool, Int) => Int;
EncLenW(w, q, pad, x) ==
  LET s == SymLenW(w, x) IN IF pad THEN q * ((s + (q - 1)) \div q) ELSE s
\* bytes in a full quantum
\* @type: (Int, Int) => Int;
QB(w, q) == (w * q) \div 8

\* closed form
\* @type: (Int, Int, Bool) => Bool;
Closed(w, q, pad) ==
  EncLenW(w, q, pad, n) = EncLenW(w, q, pad, n % QB(w, q)) + (n \div QB(w, q)) * q
\* no wrap below half the machine-word range (2^k - 1 for any k >= 2): the
\* result is at most twice the input plus one quantum, never more than 2n for
\* hex; expressed without a bound on n
\* @type: (Int, Int, Bool) => Bool;
Growth(w, q, pad) ==
  /\ w = 4 => EncLenW(w, q, pad, n) = 2 * n
  /\ w = 5 => 5 * EncLenW(w, q, pad, n) <= 8 * n + 5 * q
  /\ w = 6 => 3 * EncLenW(w, q, pad, n) <= 4 * n + 3 * q
\* monotone: a longer source never has a shorter text
\* @type: (Int, Int, Bool) => Bool;
Monotone(w, q, pad) == n <= m => EncLenW(w, q, pad, n) <= EncLenW(w, q, pad, m)
\* if m is the size of the text of n bytes then n is at most the closed-form bound
\* @type: (Int, Int, Bool) => Bool;
Decoded(w, q, pad) ==
  m = EncLenW(w, q, pad, n) =>
     /\ n <= (m * w) \div 8
     /\ n <= (m \div q) * QB(w, q) + (IF m % q = 0 THEN 0 ELSE ((m % q) * w) \div 8)
     \* unpadded: the text determines the size exactly
     /\ ~pad => n = (m * w) \div 8

\* @type: (Int, Int, Bool) => Bool;
All(w, q, pad) == Closed(w, q, pad) /\ Growth(w, q, pad) /\ Monotone(w, q, pad) /\ Decoded(w, q, pad)

LengthLaws == /\ All(6, 4, TRUE) /\ All(6, 4, FALSE)
              /\ All(5, 8, TRUE) /\ All(5, 8, FALSE)
              /\ All(4, 2, FALSE)

Init == n \in Nat /\ m \in Nat
Next == UNCHANGED n /\ UNCHANGED m

\* for TLC
\* @type: <<Int, Int>>;
vars == <<n, m>>
InitSmall == n \in 0 .. 120 /\ m \in 0 .. 220
SpecSmall == InitSmall /\ [][Next]_vars
=============================================================================
