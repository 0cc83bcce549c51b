-------------------------------- MODULE Uuid --------------------------------
(***************************************************************************)
(* DECLARATIVE definition of UUID text forms.  A template is a sequence of *)
(* literal characters and HEX markers.                                     *)
(***************************************************************************)
EXTENDS Bits

HEX == 256
H(k) == Rep(HEX, k)
TplSimple == H(32)
TplHyphen == H(8) \o <<cMinus>> \o H(4) \o <<cMinus>> \o H(4) \o <<cMinus>>
               \o H(4) \o <<cMinus>> \o H(12)
TplBraced == <<123>> \o TplHyphen \o <<125>>                       \* {...}
TplUrn    == <<117, 114, 110, 58, 117, 117, 105, 100, 58>> \o TplHyphen  \* urn:uuid:

Templates == [simple |-> TplSimple, hyphen |-> TplHyphen,
              braced |-> TplBraced, urn |-> TplUrn]

Matches(tpl, t) ==
  /\ Len(t) = Len(tpl)
  /\ \A i \in 1 .. Len(t) : IF tpl[i] = HEX THEN IsHexDigit(t[i]) ELSE t[i] = tpl[i]

HexDigitsOf(tpl, t) ==
  LET idx == SelectSeq([i \in 1 .. Len(t) |-> i], LAMBDA i : tpl[i] = HEX)
  IN [j \in 1 .. Len(idx) |-> HexVal(t[idx[j]])]

Pairs(v) == [i \in 1 .. Len(v) \div 2 |-> 16 * v[2 * i - 1] + v[2 * i]]

\* parse restricted to a set of template names
UuidParse(names, t) ==
  IF \E f \in names : Matches(Templates[f], t)
  THEN LET f == CHOOSE f \in names : Matches(Templates[f], t)
       IN [ok |-> TRUE, out |-> Pairs(HexDigitsOf(Templates[f], t))]
  ELSE [ok |-> FALSE, out |-> <<>>]

Nibbles(s) == [i \in 1 .. 2 * Len(s) |->
                IF i % 2 = 1 THEN s[(i + 1) \div 2] \div 16 ELSE s[i \div 2] % 16]

\* fill the template with the 32 digits of the 16 bytes s
UuidFormat(f, upper, s) ==
  LET tpl == Templates[f]
      v   == Nibbles(s)
      Ord(i) == Len(SelectSeq(SubSeq(tpl, 1, i), LAMBDA x : x = HEX))
  IN [i \in 1 .. Len(tpl) |->
        IF tpl[i] = HEX THEN (IF upper THEN HexUp(v[Ord(i)]) ELSE HexLo(v[Ord(i)]))
        ELSE tpl[i]]
=============================================================================
