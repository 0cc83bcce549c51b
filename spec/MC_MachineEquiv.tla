--------------------------- MODULE MC_MachineEquiv --------------------------
EXTENDS MachineEquiv, Req
K(i) == Machines[i].kind
EnvIds == {i \in ReqIds : K(i) \notin {"uparse", "ufmt"}}
L(i) == CASE i = "forgiving" -> 6 + Scale
          [] K(i) = "dec" /\ Codecs[Machines[i].c].w = 6 -> 6 + Scale
          [] K(i) = "dec" /\ Codecs[Machines[i].c].w = 5 -> 9 + Scale
          [] K(i) = "enc" -> 6 + Scale
          [] OTHER -> 4
S(i) == CASE i = "forgiving" -> {65, 81, 47, 61, 32, 42}      \* A Q / = SP *
          [] i \in {"dec_b64url", "dec_b64urlnp"} -> {65, 81, 95, 61, 47}
          [] K(i) = "dec" /\ Codecs[Machines[i].c].w = 6 -> {65, 81, 47, 61, 95}
          [] i \in {"dec_b32", "dec_b32np"} -> {65, 55, 61}
          [] i \in {"dec_b32hex", "dec_b32hexnp"} -> {48, 86, 61}
          [] K(i) = "enc" -> {0, 255, 165}
          [] K(i) = "utf32" -> {0, 16, 17, 215, 216, 223, 224, 255}
          [] i = "dec_hex" -> {48, 57, 65, 70, 97, 102, 47, 58, 64, 71, 96, 103}
          [] OTHER -> {0, 48, 127, 128, 255, 70, 71, 102, 103}

\* UUID forms: all well-formed words of a sample, all single-byte corruptions
\* by a sample of bytes, and all truncations / one-byte extensions.
Sample16 == { [i \in 1 .. 16 |-> (i * 17 + 3) % 256], [i \in 1 .. 16 |-> 255 - i] }
Good == { UuidFormat(f, u, s) : f \in AllForms, u \in BOOLEAN, s \in Sample16 }
Bad == {0, 45, 47, 48, 57, 58, 64, 65, 70, 71, 96, 97, 102, 103, 117, 85, 123, 125, 255}
Words1 == Good
  \cup { [g EXCEPT ![i] = b] : g \in {x \in Good : TRUE}, i \in 1 .. 32, b \in Bad }
  \cup UNION { { SubSeq(g, 1, n) : n \in 0 .. Len(g) } : g \in Good }
  \cup { Append(g, b) : g \in Good, b \in Bad }
  \cup UNION { { [g EXCEPT ![i] = b] : i \in 33 .. Len(g), b \in Bad } : g \in Good }
ParseIds == {i \in ReqIds : K(i) = "uparse"}
FmtIds == {i \in ReqIds : K(i) = "ufmt"}
ASSUME \A i \in ParseIds : \A x \in Words1 : Run(i, x) = Declared(i, x)
ASSUME \A i \in FmtIds : \A x \in Sample16 \cup {<<>>, <<1>>, [k \in 1 .. 17 |-> k]} :
          Run(i, x) = Declared(i, x)
\* parsing inverts formatting
ASSUME "parse_any" \in ReqIds => \A s \in Sample16, u \in BOOLEAN, f \in AllForms :
          Run("parse_any", UuidFormat(f, u, s)) = Ok(s)
=============================================================================
