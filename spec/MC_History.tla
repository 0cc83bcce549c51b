----------------------------- MODULE MC_History -----------------------------
(* A small alphabet of steps over one vector and one text, all histories.   *)
EXTENDS History
S(k, c, d, op, src, n) == [k |-> k, c |-> c, d |-> d, op |-> op, src |-> src, n |-> n]
EncSrc == {<<>>, <<0>>, <<255>>}
DecSrc == {<<>>, <<65>>, <<65, 65>>, <<65, 70>>, <<65, 65, 61, 61>>, <<65, 66, 61, 61>>, <<102, 48>>, <<71, 71>>}
MCSteps(b) ==
       {S("append", c, c, op, s, 0) : c \in {"v0"}, op \in {"hexlo.enc_append_vec", "b64std.enc_append_vec"}, s \in EncSrc}
  \cup {S("append", "s0", "s0", op, s, 0) : op \in {"hexup.enc_append_string", "b64urlnp.enc_append_string"}, s \in EncSrc}
  \cup {S("append", "v0", "v0", op, s, 0) : op \in {"hex.dec_append_vec", "b64std.dec_append_vec", "b32np.dec_append_vec"}, s \in DecSrc}
  \cup {S("assign", "v0", "v0", op, s, 0) : op \in {"hex.dec_vec", "forgiving.to_vec"}, s \in DecSrc}
  \cup {S("assign", "s0", "s0", "b32.enc_string", s, 0) : s \in EncSrc}
  \cup {S("push", "s0", "s0", "", <<195, 169>>, 0), S("push", "v0", "v0", "", <<255>>, 0)}
  \cup {S(k, c, c, "", <<>>, 0) : k \in {"clear", "take", "reserve"}, c \in {"v0", "s0"}}
  \cup {S("truncate", c, c, "", <<>>, n) : c \in {"v0", "s0"}, n \in 0 .. 3}
  \cup {S("bytes", "v0", "s0", "", <<>>, 0), S("text", "s0", "v0", "", <<>>, 0), S("copy", "v1", "v0", "", <<>>, 0)}
View == box
MCBound == Bound /\ Len(box["v0"]) + Len(box["s0"]) <= MaxLen /\ TLCGet("level") < 5
=============================================================================
