----------------------------- MODULE HistoryGen -----------------------------
(* Writes every history of IOEnv.DEPTH steps over an alphabet, with the       *)
(* contents after each step, for replay in the real library.                  *)
EXTENDS History, Json, IOUtils
S(k, c, d, op, src, n) == [k |-> k, c |-> c, d |-> d, op |-> op, src |-> src, n |-> n]
\* long enough to reach the vector code of every set, and short ones
Bin(n)  == [i \in 1 .. n |-> (i * 37 + 11) % 256]
Txt(op, n) == Result(op, Bin(n)).out
Spoil(t, i) == [t EXCEPT ![i] = 33]
Alphabet ==
  << S("append", "v0", "v0", "b64std.enc_append_vec", Bin(50), 0),
     S("append", "s0", "s0", "b64url.enc_append_string", Bin(1), 0),
     S("append", "s0", "s0", "b32.enc_append_string", Bin(33), 0),
     S("append", "s0", "s0", "hexup.enc_append_string", Bin(40), 0),
     S("append", "v0", "v0", "hexlo.enc_append_vec", Bin(3), 0),
     S("append", "v0", "v0", "b64std.dec_append_vec", Txt("b64std.enc_vec", 50), 0),
     S("append", "v0", "v0", "b64std.dec_append_vec", Spoil(Txt("b64std.enc_vec", 50), 60), 0),
     S("append", "v0", "v0", "b32hex.dec_append_vec", Txt("b32hex.enc_vec", 40), 0),
     S("append", "v0", "v0", "b32hex.dec_append_vec", Spoil(Txt("b32hex.enc_vec", 40), 63), 0),
     S("append", "v0", "v0", "hex.dec_append_vec", Txt("hexlo.enc_vec", 70), 0),
     S("append", "v0", "v0", "hex.dec_append_vec", Spoil(Txt("hexlo.enc_vec", 70), 139), 0),
     S("assign", "v0", "v0", "forgiving.to_vec", <<32>> \o Txt("b64std.enc_vec", 4), 0),
     S("truncate", "v0", "v0", "", <<>>, 0),
     S("reserve", "v0", "v0", "", <<>>, 200),
     S("shrink", "s0", "s0", "", <<>>, 0),
     S("push", "s0", "s0", "", <<226, 130, 172>>, 0),
     S("bytes", "v0", "s0", "", <<>>, 0),
     S("text", "s0", "v0", "", <<>>, 0) >>
Depth == IF IOEnv.DEPTH = "4" THEN 4 ELSE 3
\* results are computed once
Outs == [i \in 1 .. Len(Alphabet) |-> IF Alphabet[i].op = "" THEN [ok |-> TRUE, out |-> <<>>] ELSE Result(Alphabet[i].op, Alphabet[i].src)]
Post(b, i) == LET st == Alphabet[i] IN
  IF st.op = "" THEN After(b, st)
  ELSE IF ~Outs[i].ok THEN b
  ELSE IF st.k = "append" THEN [b EXCEPT ![st.c] = @ \o Outs[i].out] ELSE [b EXCEPT ![st.c] = Outs[i].out]
TagOf(b, i) == LET st == Alphabet[i] IN IF st.op = "" THEN Tag(b, st) ELSE IF Outs[i].ok THEN "ok" ELSE "err"
RECURSIVE From(_, _)
\* sequence of histories: each a sequence of <<step number, tag, v0, s0>>
From(b, d) ==
  IF d = 0 THEN << <<>> >>
  ELSE LET One(i) == IF ~Enabled(b, Alphabet[i]) THEN <<>>
                     ELSE LET p == Post(b, i)
                              e == [i |-> i, tag |-> TagOf(b, i), v0 |-> p["v0"], s0 |-> p["s0"]]
                              r == From(p, d - 1)
                          IN [j \in 1 .. Len(r) |-> <<e>> \o r[j]]
       IN FlattenSeq([i \in 1 .. Len(Alphabet) |-> One(i)])
ASSUME LET h == From(Empty, Depth) IN
         /\ ndJsonSerialize(IOEnv.OUT, <<[alphabet |-> Alphabet]>> \o h)
         /\ PrintT(<<"histories", Len(h)>>)
GInit == box = Empty /\ last = <<>>
GNext == UNCHANGED <<box, last>>
NoSteps(b) == {}
=============================================================================
