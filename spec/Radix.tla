-------------------------------- MODULE Radix -------------------------------
(***************************************************************************)
(* DECLARATIVE definition of the power-of-two text encodings (RFC 4648     *)
(* base64, base64url, base32, base32hex, base16) and of the WHATWG         *)
(* forgiving-base64 decode, written on whole strings of bits.              *)
(*                                                                         *)
(* A codec is a record                                                     *)
(*   w     bits per symbol            q   symbols per quantum              *)
(*   alpha symbol of each value       inv value of each byte (-1: none)    *)
(*   pad   TRUE: '=' fills the last quantum                                *)
(***************************************************************************)
EXTENDS Bits

InvOf(alpha) == [c \in Byte |->
                  IF \E i \in 1 .. Len(alpha) : alpha[i] = c
                  THEN (CHOOSE i \in 1 .. Len(alpha) : alpha[i] = c) - 1
                  ELSE -1]

StdAlpha == Upper \o Lower \o Digits \o <<cPlus, cSlash>>
UrlAlpha == Upper \o Lower \o Digits \o <<cMinus, cUnder>>
B32Alpha == Upper \o [i \in 1 .. 6 |-> 49 + i]             \* A-Z 2-7
B32HexAlpha == Digits \o [i \in 1 .. 22 |-> 64 + i]        \* 0-9 A-V
HexLoAlpha == [i \in 1 .. 16 |-> HexLo(i - 1)]
HexUpAlpha == [i \in 1 .. 16 |-> HexUp(i - 1)]

Mk(w, q, alpha, inv, pad) == [w |-> w, q |-> q, alpha |-> alpha, inv |-> inv, pad |-> pad]

StdInv == InvOf(StdAlpha)
UrlInv == InvOf(UrlAlpha)
B32Inv == InvOf(B32Alpha)
B32HexInv == InvOf(B32HexAlpha)
HexInv == [c \in Byte |-> HexVal(c)]

Codecs ==
  [ b64std    |-> Mk(6, 4, StdAlpha, StdInv, TRUE),
    b64url    |-> Mk(6, 4, UrlAlpha, UrlInv, TRUE),
    b64stdnp  |-> Mk(6, 4, StdAlpha, StdInv, FALSE),
    b64urlnp  |-> Mk(6, 4, UrlAlpha, UrlInv, FALSE),
    b32       |-> Mk(5, 8, B32Alpha, B32Inv, TRUE),
    b32hex    |-> Mk(5, 8, B32HexAlpha, B32HexInv, TRUE),
    b32np     |-> Mk(5, 8, B32Alpha, B32Inv, FALSE),
    b32hexnp  |-> Mk(5, 8, B32HexAlpha, B32HexInv, FALSE),
    hexlo     |-> Mk(4, 2, HexLoAlpha, HexInv, FALSE),
    hexup     |-> Mk(4, 2, HexUpAlpha, HexInv, FALSE) ]
CodecIds == DOMAIN Codecs

(***************************************************************************)
(* Lengths                                                                 *)
(***************************************************************************)
QBytes(c) == (c.w * c.q) \div 8                 \* bytes per full quantum
SymLen(c, n) == CeilDiv(8 * n, c.w)             \* symbols for n bytes
EncLen(c, n) == IF c.pad THEN c.q * CeilDiv(SymLen(c, n), c.q) ELSE SymLen(c, n)

(***************************************************************************)
(* Encoding                                                                *)
(***************************************************************************)
EncVals(c, s) ==
  LET b == WordBits(s, 8)
      k == SymLen(c, Len(s))
  IN Words(b \o Zeros(k * c.w - Len(b)), c.w)

Encode(c, s) ==
  LET v == EncVals(c, s)
  IN [i \in 1 .. Len(v) |-> c.alpha[v[i] + 1]]
       \o Rep(cEq, EncLen(c, Len(s)) - Len(v))

(***************************************************************************)
(* Strict decoding: t is accepted iff it is an encoding of some byte       *)
(* string (up to the letter case, where inv is not injective), and the     *)
(* result is that byte string.                                             *)
(***************************************************************************)
RECURSIVE BodyLen(_, _)
BodyLen(t, n) == IF n > 0 /\ t[n] = cEq THEN BodyLen(t, n - 1) ELSE n

Ok(s)  == [ok |-> TRUE,  out |-> s]
Fail   == [ok |-> FALSE, out |-> <<>>]

DecodeVals(c, vals) ==                 \* whole bytes of the symbol values
  LET b == WordBits(vals, c.w)
  IN Words(SubSeq(b, 1, 8 * (Len(b) \div 8)), 8)

Decode(c, t) ==
  LET n    == IF c.pad THEN BodyLen(t, Len(t)) ELSE Len(t)
      syms == \A i \in 1 .. n : c.inv[t[i]] >= 0
      vals == [i \in 1 .. n |-> c.inv[t[i]]]
      s    == DecodeVals(c, vals)
  IN IF syms /\ EncVals(c, s) = vals /\ EncLen(c, Len(s)) = Len(t)
     THEN Ok(s) ELSE Fail

(***************************************************************************)
(* WHATWG infra standard, "forgiving-base64 decode", step by step.         *)
(***************************************************************************)
Whatwg(t0) ==
  LET c  == Codecs.b64std
      t  == SelectSeq(t0, LAMBDA x : ~IsWs(x))                       \* 1
      n  == Len(t)
      k  == IF n % 4 = 0                                             \* 2
            THEN IF n >= 2 /\ t[n] = cEq /\ t[n - 1] = cEq THEN n - 2
                 ELSE IF n >= 1 /\ t[n] = cEq THEN n - 1 ELSE n
            ELSE n
  IN IF k % 4 = 1 THEN Fail                                          \* 3
     ELSE IF \E i \in 1 .. k : c.inv[t[i]] < 0 THEN Fail             \* 4
     ELSE Ok(DecodeVals(c, [i \in 1 .. k |-> c.inv[t[i]]]))          \* 5-10
=============================================================================
