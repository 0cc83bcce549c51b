------------------------------ MODULE Machines ------------------------------
(***************************************************************************)
(* STREAMING (Mealy machine) form of every byte-string function of the     *)
(* library.  Reading one input byte is one transition; a transition emits  *)
(* output bytes; Finish accepts or rejects and flushes.                    *)
(*                                                                         *)
(* These machines are what is bound to the code: Tables.tla writes them    *)
(* out as transition tables and the conformance driver runs the real code  *)
(* in lockstep with the tables.  MachineLaws.tla relates them to the       *)
(* declarative definitions for strings of EVERY length by per-transition   *)
(* conservation laws; MachineEquiv.tla compares both on all short strings. *)
(***************************************************************************)
EXTENDS Radix, Uuid, Unicode, FiniteSets, SequencesExt

Reject == [ok |-> FALSE, next |-> <<>>, out |-> <<>>]
Go(next, out) == [ok |-> TRUE, next |-> next, out |-> out]

AllForms == {"simple", "hyphen", "braced", "urn"}

MEnc(c)       == [kind |-> "enc", c |-> c, mode |-> "none"]
MDec(c)       == [kind |-> "dec", c |-> c, mode |-> "strict"]
MForgiving    == [kind |-> "dec", c |-> "b64std", mode |-> "forgiving"]
MDigits       == [kind |-> "digits", c |-> "hexlo", mode |-> "none"]
MParse(names) == [kind |-> "uparse", names |-> names]
MFmt(f, up)   == [kind |-> "ufmt", f |-> f, up |-> up]
MAscii        == [kind |-> "ascii"]
MUtf32        == [kind |-> "utf32"]
MAsciiStr     == [kind |-> "asciistr"]       \* text view of ASCII bytes
MSwap(k)      == [kind |-> "swap", k |-> k]  \* reverse every k-byte unit
MId           == [kind |-> "id"]

Machines ==
  [ enc_b64std |-> MEnc("b64std"),     enc_b64url |-> MEnc("b64url"),
    enc_b64stdnp |-> MEnc("b64stdnp"), enc_b64urlnp |-> MEnc("b64urlnp"),
    enc_b32 |-> MEnc("b32"),           enc_b32hex |-> MEnc("b32hex"),
    enc_b32np |-> MEnc("b32np"),       enc_b32hexnp |-> MEnc("b32hexnp"),
    enc_hexlo |-> MEnc("hexlo"),       enc_hexup |-> MEnc("hexup"),
    dec_b64std |-> MDec("b64std"),     dec_b64url |-> MDec("b64url"),
    dec_b64stdnp |-> MDec("b64stdnp"), dec_b64urlnp |-> MDec("b64urlnp"),
    dec_b32 |-> MDec("b32"),           dec_b32hex |-> MDec("b32hex"),
    dec_b32np |-> MDec("b32np"),       dec_b32hexnp |-> MDec("b32hexnp"),
    dec_hex |-> MDec("hexlo"),
    forgiving |-> MForgiving,          digits |-> MDigits,
    parse_any |-> MParse(AllForms),    parse_simple |-> MParse({"simple"}),
    parse_hyphen |-> MParse({"hyphen"}),
    fmt_simple_lo |-> MFmt("simple", FALSE), fmt_simple_up |-> MFmt("simple", TRUE),
    fmt_hyphen_lo |-> MFmt("hyphen", FALSE), fmt_hyphen_up |-> MFmt("hyphen", TRUE),
    ascii |-> MAscii, asciistr |-> MAsciiStr, utf32 |-> MUtf32,
    swap2 |-> MSwap(2), swap4 |-> MSwap(4), id |-> MId ]
MachineIds == DOMAIN Machines

Init0(m) ==
  CASE m.kind = "enc"    -> <<0, 0>>                  \* pending bits, their value
    [] m.kind = "dec"    -> <<0, 0, 0>>               \* position in quantum, pending value, pads
    [] m.kind = "digits" -> <<0>>
    [] m.kind = "uparse" -> <<m.names, 0, -1>>        \* candidate forms, position, high nibble
    [] m.kind = "ufmt"   -> <<0>>                     \* bytes read
    [] m.kind = "ascii"  -> <<0>>
    [] m.kind = "utf32"  -> <<0, 0>>                  \* position in unit, surrogate-range flag
    [] m.kind = "asciistr" -> <<0>>
    [] m.kind = "swap"   -> <<>>                      \* bytes held, last first
    [] m.kind = "id"     -> <<0>>

(***************************************************************************)
(* Encoders                                                                *)
(***************************************************************************)
EncStep(c, s, b) ==
  LET k == s[1]
      v == s[2] * 256 + b
      t == k + 8
      n == t \div c.w
      r == t % c.w
  IN Go(<<r, v % P2(r)>>,
        [i \in 1 .. n |-> c.alpha[((v \div P2(t - c.w * i)) % P2(c.w)) + 1]])

\* bytes read in the current quantum when k bits are pending
PosOfPend(c, k) == CHOOSE n \in 0 .. QBytes(c) - 1 : (8 * n) % c.w = k

EncFinish(c, s) ==
  IF s[1] = 0 THEN Ok(<<>>)
  ELSE Ok(<<c.alpha[s[2] * P2(c.w - s[1]) + 1]>>
            \o (IF c.pad THEN Rep(cEq, c.q - SymLen(c, PosOfPend(c, s[1]))) ELSE <<>>))

(***************************************************************************)
(* Decoders                                                                *)
(***************************************************************************)
PendBits(c, pos) == (pos * c.w) % 8
\* a quantum may end after pos symbols with pending value acc
CanEnd(c, mode, pos, acc) ==
  pos # 0 /\ PendBits(c, pos) < c.w /\ (mode = "forgiving" \/ acc = 0)

DecStep(c, mode, s, b) ==
  LET pos == s[1]  acc == s[2]  np == s[3]  x == c.inv[b] IN
  IF mode = "forgiving" /\ IsWs(b) THEN Go(s, <<>>)
  ELSE IF np > 0
  THEN IF b = cEq /\ pos + np < c.q THEN Go(<<pos, acc, np + 1>>, <<>>) ELSE Reject
  ELSE IF x >= 0
  THEN LET k == PendBits(c, pos)
           v == acc * P2(c.w) + x
           t == k + c.w
       IN IF t >= 8
          THEN Go(<<(pos + 1) % c.q, v % P2(t - 8), 0>>, <<v \div P2(t - 8)>>)
          ELSE Go(<<(pos + 1) % c.q, v, 0>>, <<>>)
  ELSE IF b = cEq /\ c.pad /\ CanEnd(c, mode, pos, acc)
  THEN Go(<<pos, IF mode = "forgiving" THEN 0 ELSE acc, 1>>, <<>>)
  ELSE Reject

DecFinish(c, mode, s) ==
  IF \/ s[3] = 0 /\ s[1] = 0
     \/ s[3] = 0 /\ (~c.pad \/ mode = "forgiving") /\ CanEnd(c, mode, s[1], s[2])
     \/ s[3] > 0 /\ s[1] + s[3] = c.q
  THEN Ok(<<>>) ELSE Fail

(***************************************************************************)
(* UUIDs                                                                   *)
(***************************************************************************)
ParseStep(s, b) ==
  LET names == {f \in s[1] : /\ s[2] < Len(Templates[f])
                             /\ LET e == Templates[f][s[2] + 1]
                                IN IF e = HEX THEN IsHexDigit(b) ELSE e = b}
      isHex == \E f \in names : Templates[f][s[2] + 1] = HEX
  IN IF names = {} THEN Reject
     ELSE IF ~isHex THEN Go(<<names, s[2] + 1, s[3]>>, <<>>)
     ELSE IF s[3] < 0 THEN Go(<<names, s[2] + 1, HexVal(b)>>, <<>>)
     ELSE Go(<<names, s[2] + 1, -1>>, <<16 * s[3] + HexVal(b)>>)

ParseFinish(s) == IF \E f \in s[1] : Len(Templates[f]) = s[2] THEN Ok(<<>>) ELSE Fail

FmtStep(m, s, b) ==
  LET hx(v) == IF m.up THEN HexUp(v) ELSE HexLo(v)
      sep == IF m.f = "hyphen" /\ s[1] \in {4, 6, 8, 10} THEN <<cMinus>> ELSE <<>>
  IN IF s[1] >= 16 THEN Reject
     ELSE Go(<<s[1] + 1>>, sep \o <<hx(b \div 16), hx(b % 16)>>)
FmtFinish(s) == IF s[1] = 16 THEN Ok(<<>>) ELSE Fail

(***************************************************************************)
(* Unicode                                                                 *)
(***************************************************************************)
\* little-endian unit: bytes b0 b1 b2 b3
Utf32Step(s, b) ==
  CASE s[1] = 0 -> Go(<<1, 0>>, <<>>)
    [] s[1] = 1 -> Go(<<2, IF b \in 216 .. 223 THEN 1 ELSE 0>>, <<>>)
    [] s[1] = 2 -> IF b > 16 \/ (b = 0 /\ s[2] = 1) THEN Reject ELSE Go(<<3, 0>>, <<>>)
    [] s[1] = 3 -> IF b = 0 THEN Go(<<0, 0>>, <<>>) ELSE Reject

(***************************************************************************)
(* The common interface                                                    *)
(***************************************************************************)
Step(m, s, b) ==
  CASE m.kind = "enc"    -> EncStep(Codecs[m.c], s, b)
    [] m.kind = "dec"    -> DecStep(Codecs[m.c], m.mode, s, b)
    [] m.kind = "digits" -> IF IsHexDigit(b) THEN Go(s, <<>>) ELSE Reject
    [] m.kind = "uparse" -> ParseStep(s, b)
    [] m.kind = "ufmt"   -> FmtStep(m, s, b)
    [] m.kind = "ascii"  -> IF b < 128 THEN Go(s, <<>>) ELSE Reject
    [] m.kind = "utf32"  -> Utf32Step(s, b)
    [] m.kind = "asciistr" -> IF b < 128 THEN Go(s, <<b>>) ELSE Reject
    [] m.kind = "swap"   -> IF Len(s) < m.k - 1 THEN Go(<<b>> \o s, <<>>) ELSE Go(<<>>, <<b>> \o s)
    [] m.kind = "id"     -> Go(s, <<b>>)

Finish(m, s) ==
  CASE m.kind = "enc"    -> EncFinish(Codecs[m.c], s)
    [] m.kind = "dec"    -> DecFinish(Codecs[m.c], m.mode, s)
    [] m.kind = "digits" -> Ok(<<>>)
    [] m.kind = "uparse" -> ParseFinish(s)
    [] m.kind = "ufmt"   -> FmtFinish(s)
    [] m.kind = "ascii"  -> Ok(<<>>)
    [] m.kind = "utf32"  -> IF s[1] = 0 THEN Ok(<<>>) ELSE Fail
    [] m.kind = "asciistr" -> Ok(<<>>)
    [] m.kind = "swap"   -> IF s = <<>> THEN Ok(<<>>) ELSE Fail
    [] m.kind = "id"     -> Ok(<<>>)

\* Run a machine on a whole string.
RECURSIVE RunFrom(_, _, _, _, _)
RunFrom(m, s, w, i, out) ==
  IF i > Len(w)
  THEN LET f == Finish(m, s) IN IF f.ok THEN Ok(out \o f.out) ELSE Fail
  ELSE LET r == Step(m, s, w[i])
       IN IF r.ok THEN RunFrom(m, r.next, w, i + 1, out \o r.out) ELSE Fail
Run(id, w) == RunFrom(Machines[id], Init0(Machines[id]), w, 1, <<>>)

(***************************************************************************)
(* What each machine is supposed to compute.                               *)
(***************************************************************************)
Declared(id, w) ==
  LET m == Machines[id] IN
  CASE m.kind = "enc"    -> Ok(Encode(Codecs[m.c], w))
    [] m.kind = "dec" /\ m.mode = "strict" -> Decode(Codecs[m.c], w)
    [] m.kind = "dec" /\ m.mode = "forgiving" -> Whatwg(w)
    [] m.kind = "digits" -> IF \A i \in 1 .. Len(w) : IsHexDigit(w[i]) THEN Ok(<<>>) ELSE Fail
    [] m.kind = "uparse" -> UuidParse(m.names, w)
    [] m.kind = "ufmt"   -> IF Len(w) = 16 THEN Ok(UuidFormat(m.f, m.up, w)) ELSE Fail
    [] m.kind = "ascii"  -> IF IsAscii(w) THEN Ok(<<>>) ELSE Fail
    [] m.kind = "utf32"  -> IF IsUtf32le(w) THEN Ok(<<>>) ELSE Fail
    [] m.kind = "asciistr" -> IF IsAscii(w) THEN Ok(w) ELSE Fail
    [] m.kind = "swap"   -> IF Len(w) % m.k = 0 THEN Ok(SwapUnits(w, m.k)) ELSE Fail
    [] m.kind = "id"     -> Ok(w)
=============================================================================
