------------------------------- MODULE Unicode ------------------------------
(***************************************************************************)
(* DECLARATIVE definitions: ASCII text, UTF-32LE text, byte-order reversal.*)
(***************************************************************************)
EXTENDS Bits

IsAscii(s) == \A i \in 1 .. Len(s) : s[i] < 128

\* A code unit is given by its 4 little-endian bytes (TLC integers are 32 bit).
\* Unicode scalar value: 0..D7FF or E000..10FFFF.
Scalar(b0, b1, b2, b3) ==
  /\ b3 = 0
  /\ \/ b2 \in 1 .. 16
     \/ b2 = 0 /\ b1 \notin 216 .. 223

IsUtf32le(s) ==
  /\ Len(s) % 4 = 0
  /\ \A i \in 0 .. (Len(s) \div 4) - 1 :
       Scalar(s[4 * i + 1], s[4 * i + 2], s[4 * i + 3], s[4 * i + 4])

\* UTF-8 (Unicode, table 3-7): well-formed byte sequences, as one character's length
\* at position i (0: not well-formed there)
Cont(s, i, lo, hi) == IF i > Len(s) THEN FALSE ELSE s[i] >= lo /\ s[i] <= hi
CharLen(s, i) ==
  LET a == s[i]
      tail(n) == \A j \in 1 .. n : Cont(s, i + 1 + j, 128, 191)
  IN CASE a < 128                                          -> 1
       [] a \in 194 .. 223 /\ Cont(s, i + 1, 128, 191)     -> 2
       [] a = 224 /\ Cont(s, i + 1, 160, 191) /\ tail(1)   -> 3
       [] a \in (225 .. 239) \ {237} /\ Cont(s, i + 1, 128, 191) /\ tail(1) -> 3
       [] a = 237 /\ Cont(s, i + 1, 128, 159) /\ tail(1)   -> 3
       [] a = 240 /\ Cont(s, i + 1, 144, 191) /\ tail(2)   -> 4
       [] a \in 241 .. 243 /\ Cont(s, i + 1, 128, 191) /\ tail(2) -> 4
       [] a = 244 /\ Cont(s, i + 1, 128, 143) /\ tail(2)   -> 4
       [] OTHER                                            -> 0
RECURSIVE Utf8From(_, _)
Utf8From(s, i) == IF i > Len(s) THEN TRUE ELSE IF CharLen(s, i) = 0 THEN FALSE ELSE Utf8From(s, i + CharLen(s, i))
IsUtf8(s) == Utf8From(s, 1)
\* between characters: a place where a text may be cut after n bytes
Boundary(s, n) == IF n < Len(s) THEN s[n + 1] \notin 128 .. 191 ELSE n = Len(s)

\* reverse the bytes of each k-byte unit
SwapUnits(s, k) == [i \in 1 .. Len(s) |-> s[(((i - 1) \div k) + 1) * k - ((i - 1) % k)]]
=============================================================================
