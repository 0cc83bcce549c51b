-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Bytes, bit strings and character codes.  Bit strings are sequences of   *)
(* 0/1, most significant bit first.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Byte == 0 .. 255

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192,
          16384, 32768, 65536>>
P2(k) == Pow2[k + 1]                     \* 2^k, k \in 0..16

\* The k low bits of v, most significant first.
BitsOf(v, k) == [i \in 1 .. k |-> (v \div P2(k - i)) % 2]

\* The number written by a bit string.
RECURSIVE NumOfRec(_, _, _)
NumOfRec(b, i, acc) == IF i > Len(b) THEN acc
                       ELSE NumOfRec(b, i + 1, 2 * acc + b[i])
NumOf(b) == NumOfRec(b, 1, 0)

\* Concatenation of the w-bit groups of a sequence of numbers.
WordBits(s, w) == [i \in 1 .. Len(s) * w |->
                    (s[((i - 1) \div w) + 1] \div P2(w - 1 - ((i - 1) % w))) % 2]

\* Inverse: cut a bit string (whose length is a multiple of w) into numbers.
Words(b, w) == [i \in 1 .. Len(b) \div w |->
                 NumOf(SubSeq(b, (i - 1) * w + 1, i * w))]

Zeros(k) == [i \in 1 .. k |-> 0]
Rep(x, k) == [i \in 1 .. k |-> x]

\* Arithmetic helpers
CeilDiv(a, b) == (a + b - 1) \div b
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

XorBit(a, b) == IF a = b THEN 0 ELSE 1

\* Character codes used below
cEq    == 61   \* =
cPlus  == 43   \* +
cSlash == 47   \* /
cMinus == 45   \* -
cUnder == 95   \* _
Upper == [i \in 1 .. 26 |-> 64 + i]     \* A..Z
Lower == [i \in 1 .. 26 |-> 96 + i]     \* a..z
Digits == [i \in 1 .. 10 |-> 47 + i]    \* 0..9

IsDigit(c) == c \in 48 .. 57
IsHexDigit(c) == c \in (48 .. 57) \cup (65 .. 70) \cup (97 .. 102)
HexVal(c) == IF c \in 48 .. 57 THEN c - 48
             ELSE IF c \in 65 .. 70 THEN c - 55
             ELSE IF c \in 97 .. 102 THEN c - 87 ELSE -1
HexLo(v) == IF v < 10 THEN 48 + v ELSE 87 + v
HexUp(v) == IF v < 10 THEN 48 + v ELSE 55 + v

\* ASCII whitespace of the WHATWG infra standard: TAB LF FF CR SPACE
IsWs(c) == c \in {9, 10, 12, 13, 32}
=============================================================================
