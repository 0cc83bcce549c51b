-------------------------------- MODULE Lanes -------------------------------
(***************************************************************************)
(* The vector primitives of vsimd, lane by lane.  Vectors are sequences of *)
(* bytes, first in memory first; a lane of w bytes is little-endian.       *)
(*                                                                         *)
(* An operation is a record                                                *)
(*   name, kind, args (byte lengths), n (bytes returned), min (least x86   *)
(*   level that offers it), wasm (offered by WebAssembly SIMD), dom (what  *)
(*   its arguments may be)                                                 *)
(* and the parameters of its kind.  Eval(op, args) is its meaning; for     *)
(* "gather" with loose indices the meaning is a set (Matches).             *)
(***************************************************************************)
EXTENDS Bits, TLC, FiniteSets

Sg(x) == IF x < 128 THEN x ELSE x - 256
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Mask(p) == IF p THEN 255 ELSE 0

(* ---- functions of one byte, of two bytes ----------------------------- *)
B64Val(c) == IF c \in 65 .. 90 THEN c - 65 ELSE IF c \in 97 .. 122 THEN c - 71
             ELSE IF c \in 48 .. 57 THEN c + 4 ELSE IF c = cPlus THEN 62 ELSE IF c = cSlash THEN 63 ELSE -1
B32Val(c) == IF c \in 65 .. 90 THEN c - 65 ELSE IF c \in 50 .. 55 THEN c - 24 ELSE -1

F1(f, a) ==
  CASE f = "not"   -> 255 - a
    [] f = "lower" -> IF a \in 65 .. 90 THEN a + 32 ELSE a
    [] f = "upper" -> IF a \in 97 .. 122 THEN a - 32 ELSE a
    [] f = "unhex" -> IF IsHexDigit(a) THEN HexVal(a) ELSE 255

BitAnd(a, b) == NumOf([i \in 1 .. 8 |-> ((a \div P2(8 - i)) % 2) * ((b \div P2(8 - i)) % 2)])

F2(f, a, b) ==
  CASE f = "add"    -> (a + b) % 256
    [] f = "sub"    -> (a - b) % 256
    [] f = "addsu"  -> Clamp(a + b, 0, 255)
    [] f = "subsu"  -> Clamp(a - b, 0, 255)
    [] f = "addss"  -> Clamp(Sg(a) + Sg(b), -128, 127) % 256
    [] f = "subss"  -> Clamp(Sg(a) - Sg(b), -128, 127) % 256
    [] f = "eq"     -> Mask(a = b)
    [] f = "ltu"    -> Mask(a < b)
    [] f = "lts"    -> Mask(Sg(a) < Sg(b))
    [] f = "maxu"   -> IF a < b THEN b ELSE a
    [] f = "minu"   -> IF a < b THEN a ELSE b
    [] f = "maxs"   -> IF Sg(a) < Sg(b) THEN b ELSE a
    [] f = "mins"   -> IF Sg(a) < Sg(b) THEN a ELSE b
    [] f = "avgr"   -> (a + b + 1) \div 2
    [] f = "and"    -> BitAnd(a, b)
    [] f = "andnot" -> a - BitAnd(a, b)                  \* a and not b
    [] f = "or"     -> a + b - BitAnd(a, b)
    [] f = "xor"    -> a + b - 2 * BitAnd(a, b)
\* the two bytes of a little-endian signed 16-bit lane, saturated to a byte
Packus(lo, hi) == Clamp(256 * Sg(hi) + lo, 0, 255)

(* ---- lanes of several limbs, base B (256 in the code, small in laws) -- *)
\* a step takes the state, one limb of each argument, and whether it is the last (sign) limb
SgB(x, B) == IF x < B \div 2 THEN x ELSE x - B
RStep(f, s, a, b, last, B) ==
  CASE f = "add" -> <<(a + b + s) \div B, (a + b + s) % B>>
    [] f = "sub" -> <<IF a - b - s < 0 THEN 1 ELSE 0, (a - b - s) % B>>
    [] f = "cmpu" -> <<IF a < b THEN 1 ELSE IF a > b THEN 2 ELSE s, 0>>
    [] f = "cmps" -> LET x == IF last THEN SgB(a, B) ELSE a
                         y == IF last THEN SgB(b, B) ELSE b
                     IN <<IF x < y THEN 1 ELSE IF x > y THEN 2 ELSE s, 0>>
    [] f = "subs" -> LET d == SgB(a, B) - SgB(b, B) - s
                     IN IF last THEN <<IF d < -(B \div 2) THEN 3 ELSE IF d >= B \div 2 THEN 2 ELSE 0, d % B>>
                        ELSE <<IF a - b - s < 0 THEN 1 ELSE 0, (a - b - s) % B>>
RStates == [add |-> 2, sub |-> 2, cmpu |-> 3, cmps |-> 3, subs |-> 2]
\* which machine an operation runs, and what it delivers in each final state
FOut == "out"
RMach == [add |-> "add", sub |-> "sub", subsu |-> "sub", subss |-> "subs", eq |-> "cmpu", ltu |-> "cmpu", lts |-> "cmps",
          maxu |-> "cmpu", minu |-> "cmpu", maxs |-> "cmps", mins |-> "cmps"]
RFin == [add |-> <<"out", "out">>, sub |-> <<"out", "out">>, subsu |-> <<"out", "zero">>,
         subss |-> <<"out", "out", "smax", "smin">>, eq |-> <<"ones", "zero", "zero">>,
         ltu |-> <<"zero", "ones", "zero">>, lts |-> <<"zero", "ones", "zero">>,
         maxu |-> <<"a", "b", "a">>, minu |-> <<"a", "a", "b">>, maxs |-> <<"a", "b", "a">>, mins |-> <<"a", "a", "b">>]
RECURSIVE RRun(_, _, _, _, _, _, _)
RRun(m, a, b, i, s, out, B) ==
  IF i > Len(a) THEN <<s, out>>
  ELSE LET r == RStep(m, s, a[i], b[i], i = Len(a), B) IN RRun(m, a, b, i + 1, r[1], Append(out, r[2]), B)
Ripple(f, a, b, B) ==
  LET r == RRun(RMach[f], a, b, 1, 0, <<>>, B)
      k == Len(a)
      d == RFin[f][r[1] + 1]
  IN CASE d = "out" -> r[2] [] d = "ones" -> Rep(B - 1, k) [] d = "zero" -> Rep(0, k) [] d = "a" -> a [] d = "b" -> b
       [] d = "smax" -> [i \in 1 .. k |-> IF i = k THEN B \div 2 - 1 ELSE B - 1]
       [] d = "smin" -> [i \in 1 .. k |-> IF i = k THEN B \div 2 ELSE 0]

\* product modulo B^k
RECURSIVE ColSum(_, _, _, _), MulRec(_, _, _, _, _, _)
ColSum(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + ColSum(a, b, k, i + 1)
MulRec(a, b, k, c, out, B) ==
  IF k > Len(a) THEN out
  ELSE LET t == ColSum(a, b, k, 1) + c IN MulRec(a, b, k + 1, t \div B, Append(out, t % B), B)
Mul(a, b, B) == MulRec(a, b, 1, 0, <<>>, B)
Ext(a, k, signed, B) == [i \in 1 .. k |-> IF i <= Len(a) THEN a[i] ELSE IF signed /\ a[Len(a)] >= B \div 2 THEN B - 1 ELSE 0]
MulHi(a, b, signed, B) == LET k == Len(a) IN SubSeq(Mul(Ext(a, 2 * k, signed, B), Ext(b, 2 * k, signed, B), B), k + 1, 2 * k)
\* a0*b0 + a1*b1 of signed lanes, wrapping in a lane of twice the width
Madd(a, b, B) == LET k == Len(a) \div 2
                     x(v, j) == Ext(SubSeq(v, (j - 1) * k + 1, j * k), 2 * k, TRUE, B)
                 IN Ripple("add", Mul(x(a, 1), x(b, 1), B), Mul(x(a, 2), x(b, 2), B), B)
\* unsigned a times signed b, neighbours added with signed saturation
Maddubs(a, b) == LET v == Clamp(a[1] * Sg(b[1]) + a[2] * Sg(b[2]), -32768, 32767) % 65536 IN <<v % 256, v \div 256>>
MulFn(f, a, b) ==
  CASE f = "mullo" -> Mul(a, b, 256) [] f = "mulhiu" -> MulHi(a, b, FALSE, 256) [] f = "mulhis" -> MulHi(a, b, TRUE, 256)
    [] f = "madd" -> Madd(a, b, 256) [] f = "maddubs" -> Maddubs(a, b)

(* ---- data movement: the source unit of every result unit (0: zero) ----- *)
Bit(x, i) == (x \div P2(i)) % 2
Src(o, j) ==     \* j: result unit, from 1; units of the arguments are numbered through
  LET i == j - 1
      w == o.w
      el == i \div w   off == i % w
      half(blk) == blk \div 2
  IN CASE o.m = "id"    -> j
       [] o.m = "zero"  -> 0
       [] o.m = "part"  -> o.at + j                          \* a contiguous piece
       [] o.m = "put"   -> IF i >= o.at /\ i < o.at + o.len THEN o.mem + (i - o.at) + 1 ELSE j
       [] o.m = "splat" -> (i % w) + 1
       [] o.m = "dup"   -> (i % o.half) + 1
       [] o.m = "shl"   -> LET p == i % w IN IF p >= o.k THEN j - o.k ELSE 0
       [] o.m = "shr"   -> LET p == i % w IN IF p + o.k < w THEN j + o.k ELSE 0
       [] o.m = "bswap" -> el * w + (w - 1 - off) + 1
       [] o.m = "ziplo" \/ o.m = "ziphi" ->                    \* within blocks of o.blk bytes
            LET b0 == (i \div o.blk) * o.blk
                e  == (i % o.blk) \div w
                t  == (e \div 2) + (IF o.m = "ziphi" THEN (o.blk \div w) \div 2 ELSE 0)
            IN (e % 2) * o.n + b0 + t * w + off + 1
       [] o.m = "even"  -> (2 * el) * w + off + 1
       [] o.m = "odd"   -> (2 * el + 1) * w + off + 1
       [] o.m = "perm"  -> ((o.k \div P2(2 * el)) % 4) * w + off + 1
       [] o.m = "blend" -> IF Bit(o.k, el) = 1 THEN o.n + j ELSE j
       [] o.m = "widen" -> IF i % 2 = 0 THEN i \div 2 + 1 ELSE 0
       [] o.m = "high"  -> 8 * i + 8                           \* top bit of each byte

Flat(args) == IF Len(args) = 1 THEN args[1] ELSE IF Len(args) = 2 THEN args[1] \o args[2] ELSE args[1] \o args[2] \o args[3]
BitsLE(s) == [i \in 1 .. 8 * Len(s) |-> Bit(s[((i - 1) \div 8) + 1], (i - 1) % 8)]
BytesLE(b) == [i \in 1 .. Len(b) \div 8 |-> NumOf([k \in 1 .. 8 |-> b[8 * (i - 1) + 9 - k]])]
Move(o, args) ==
  IF o.unit = 8 THEN LET f == IF o.args = <<>> THEN <<>> ELSE Flat(args)
                     IN [j \in 1 .. o.n |-> LET x == Src(o, j) IN IF x = 0 THEN 0 ELSE f[x]]
  ELSE LET f == BitsLE(Flat(args)) IN BytesLE([j \in 1 .. 8 * o.n |-> LET x == Src(o, j) IN IF x = 0 THEN 0 ELSE f[x]])

(* ---- folds: a verdict over all bytes ------------------------------------ *)
FoldStep(f, s, b) ==       \* state 1: decided
  CASE f = "any_zero"    -> IF s = 1 \/ b = 0 THEN 1 ELSE 0
    [] f = "all_zero"    -> IF s = 1 \/ b # 0 THEN 1 ELSE 0
    [] f = "all_ones"    -> IF s = 1 \/ b # 255 THEN 1 ELSE 0
    [] f = "any_ones"    -> IF s = 1 \/ b = 255 THEN 1 ELSE 0
    [] f = "all_high"    -> IF s = 1 \/ b < 128 THEN 1 ELSE 0
    [] f = "any_high"    -> IF s = 1 \/ b >= 128 THEN 1 ELSE 0
    [] f = "all_hex"     -> IF s = 1 \/ ~ IsHexDigit(b) THEN 1 ELSE 0
    [] f = "all_b64"     -> IF s = 1 \/ B64Val(b) < 0 THEN 1 ELSE 0
    [] f = "all_b32"     -> IF s = 1 \/ B32Val(b) < 0 THEN 1 ELSE 0
FoldNeg == {"all_zero", "all_ones", "all_high", "all_hex", "all_b64", "all_b32"}
FoldFin(f, s) == IF f \in FoldNeg THEN 1 - s ELSE s
RECURSIVE FoldRun(_, _, _, _)
FoldRun(f, a, i, s) == IF i > Len(a) THEN s ELSE FoldRun(f, a, i + 1, FoldStep(f, s, a[i]))

\* one byte out of all of them
RECURSIVE Reduce(_, _, _, _)
Reduce(F(_, _), a, i, s) == IF i > Len(a) THEN s ELSE Reduce(F, a, i + 1, F(s, a[i]))

(* ---- one byte to two, two to one ---------------------------------------- *)
Expand(f, a) ==
  CASE f = "hexlo" -> <<HexLo(a \div 16), HexLo(a % 16)>>
    [] f = "hexup" -> <<HexUp(a \div 16), HexUp(a % 16)>>
    [] f = "classhex" -> IF IsHexDigit(a) THEN <<0, HexVal(a)>> ELSE <<1, 0>>
    [] f = "class64" -> IF B64Val(a) >= 0 THEN <<0, B64Val(a)>> ELSE <<1, 0>>
    [] f = "class32" -> IF B32Val(a) >= 0 THEN <<0, B32Val(a)>> ELSE <<1, 0>>
Unhex2(h, l) == IF IsHexDigit(h) /\ IsHexDigit(l) THEN 16 * HexVal(h) + HexVal(l) ELSE 256

(* ---- the scalar ALSW functions over arbitrary tables ---------------------- *)
Lut(t, x) == IF x < 128 THEN t[(x % 16) + 1] ELSE 0
AlswHash(h, c) == (224 + c \div 8 + Lut(h, c) + 1) \div 2
AlswCheck(h, o, c) == Clamp(Sg(c) + Sg(Lut(o, AlswHash(h, c))), -128, 127) % 256
AlswDecode(h, o, c) == (c + Lut(o, AlswHash(h, c))) % 256

(* ---- meaning --------------------------------------------------------------- *)
Lane(a, k, w) == SubSeq(a, (k - 1) * w + 1, k * w)
Lanewise(F(_, _), a, b, w) == [i \in 1 .. Len(a) |-> F(Lane(a, (i - 1) \div w + 1, w), Lane(b, (i - 1) \div w + 1, w))[((i - 1) % w) + 1]]
\* the same, each lane evaluated once
ByLanes(F(_, _), a, b, w) == LET r == [k \in 1 .. Len(a) \div w |-> F(Lane(a, k, w), Lane(b, k, w))]
                             IN [i \in 1 .. Len(a) |-> r[(i - 1) \div w + 1][((i - 1) % w) + 1]]

Eval(o, args) ==
  CASE o.kind = "byte1" -> [i \in 1 .. o.n |-> F1(o.f, args[1][i])]
    [] o.kind = "byte2" -> [i \in 1 .. o.n |-> F2(o.f, args[1][i], args[2][i])]
    [] o.kind = "pair"  -> LET f == Flat(args) IN [i \in 1 .. o.n |-> Packus(f[2 * i - 1], f[2 * i])]
    [] o.kind = "ripple" -> LET F(a, b) == Ripple(o.f, a, b, 256) IN ByLanes(F, args[1], args[2], o.w)
    [] o.kind = "mul"   -> LET F(a, b) == MulFn(o.f, a, b) IN ByLanes(F, args[1], args[2], o.w)
    [] o.kind = "moves" -> Move(o, args)
    [] o.kind = "sel"   -> IF o.unit = 8 THEN [i \in 1 .. o.n |-> IF args[o.ctl][i] >= 128 THEN args[o.one][i] ELSE args[o.zero][i]]
                           ELSE LET c == BitsLE(args[o.ctl]) x == BitsLE(args[o.one]) y == BitsLE(args[o.zero])
                                IN BytesLE([i \in 1 .. 8 * o.n |-> IF c[i] = 1 THEN x[i] ELSE y[i]])
    [] o.kind = "fold"  -> <<FoldFin(o.f, FoldRun(o.f, args[1], 1, 0))>>
    [] o.kind = "reduce" -> LET F(x, y) == F2(o.f, x, y) IN <<Reduce(F, args[1], 2, args[1][1])>>
    [] o.kind = "reach" -> [i \in 1 .. o.n |-> IF args[2][i] < o.n THEN args[1][args[2][i] + 1] ELSE 0]
    [] o.kind = "expand" -> LET f == Flat(args) IN [i \in 1 .. o.n |-> Expand(o.f, f[(i - 1) \div 2 + 1])[((i - 1) % 2) + 1]]
    [] o.kind = "contract" -> LET f == Flat(args)
                                  v == [i \in 1 .. Len(f) \div 2 |-> Unhex2(f[2 * i - 1], f[2 * i])]
                              IN IF \E i \in DOMAIN v : v[i] = 256 THEN Rep(0, o.n)
                                 ELSE <<1>> \o v
    [] o.kind = "alsw"  -> <<IF o.f = "check" THEN AlswCheck(args[1], args[2], args[3][1])
                             ELSE IF o.f = "decode" THEN AlswDecode(args[1], args[2], args[3][1])
                             ELSE AlswHash(args[1], args[3][1])>>

\* index bytes 16..127 of a swizzle are outside its meaning: machines differ (0, or modulo 16)
GatherOk(o, args, out) ==
  /\ Len(out) = o.n
  /\ \A i \in 1 .. o.n : LET x == args[2][i]  t == args[1][((i - 1) \div 16) * 16 + (x % 16) + 1]
                         IN IF x >= 128 THEN out[i] = 0
                            ELSE out[i] = t \/ (o.loose /\ x >= 16 /\ out[i] = 0)
Matches(o, args, out) == IF o.kind = "gather" THEN GatherOk(o, args, out) ELSE out = Eval(o, args)
=============================================================================
