------------------------------- MODULE History ------------------------------
(***************************************************************************)
(* A program's containers under any history of owned and appending calls,  *)
(* interleaved with ordinary container operations.                         *)
(*                                                                         *)
(* State: the contents of two byte vectors v0, v1 and two texts s0, s1.    *)
(* A step [k, c, d, op, src, n]:                                           *)
(*   append   call the appending operation op with src on container c      *)
(*   assign   c := the owned result of op on src (kept on failure)         *)
(*   push     append the bytes src (one character, for texts)              *)
(*   truncate keep the first n bytes; clear; take (leave empty);           *)
(*   reserve, shrink   change nothing                                      *)
(*   copy     c := contents of d                                           *)
(*   bytes    c := bytes of the text d, d becomes empty                    *)
(*   text     c := the text in the bytes d, if they are well-formed;       *)
(*            d becomes empty (otherwise nothing changes)                  *)
(***************************************************************************)
EXTENDS Api

Vecs  == {"v0", "v1"}
Texts == {"s0", "s1"}
Names == Vecs \cup Texts

Result(op, src) == Declared(OpTable[op].m, src)

\* may the step be made at all (what Rust's types and the driver allow)
Enabled(box, st) ==
  CASE st.k \in {"append", "assign", "reserve", "shrink", "clear", "take"} -> TRUE
    [] st.k = "push"     -> st.c \in Texts => IsUtf8(st.src)
    [] st.k = "truncate" -> st.n <= Len(box[st.c]) /\ (st.c \in Texts => Boundary(box[st.c], st.n))
    [] st.k = "copy"     -> {st.c, st.d} \subseteq Vecs \/ {st.c, st.d} \subseteq Texts
    [] st.k = "bytes"    -> st.c \in Vecs /\ st.d \in Texts
    [] st.k = "text"     -> st.c \in Texts /\ st.d \in Vecs

Tag(box, st) ==
  CASE st.k \in {"append", "assign"} -> IF Result(st.op, st.src).ok THEN "ok" ELSE "err"
    [] st.k = "text" -> IF IsUtf8(box[st.d]) THEN "ok" ELSE "err"
    [] OTHER -> "ok"

After(box, st) ==
  IF Tag(box, st) = "err" THEN box
  ELSE CASE st.k = "append"   -> [box EXCEPT ![st.c] = @ \o Result(st.op, st.src).out]
         [] st.k = "assign"   -> [box EXCEPT ![st.c] = Result(st.op, st.src).out]
         [] st.k = "push"     -> [box EXCEPT ![st.c] = @ \o st.src]
         [] st.k = "truncate" -> [box EXCEPT ![st.c] = SubSeq(@, 1, st.n)]
         [] st.k \in {"clear", "take"} -> [box EXCEPT ![st.c] = <<>>]
         [] st.k \in {"reserve", "shrink"} -> box
         [] st.k = "copy"     -> [box EXCEPT ![st.c] = box[st.d]]
         [] st.k \in {"bytes", "text"} -> [box EXCEPT ![st.c] = box[st.d], ![st.d] = <<>>]

Empty == [c \in Names |-> <<>>]

----------------------------------------------------------------------------
(* The system: any history over a given set of steps.                      *)
CONSTANTS Steps(_),          \* the steps offered in a state
          MaxLen             \* bound on contents (state constraint)
VARIABLES box, last          \* last: the step just made
Init == box = Empty /\ last = [k |-> "none"]
Do(st) == Enabled(box, st) /\ box' = After(box, st) /\ last' = st
Next == \E st \in {x \in Steps(box) : Enabled(box, x)} : Do(st)
Spec == Init /\ [][Next]_<<box, last>>
Bound == \A c \in Names : Len(box[c]) <= MaxLen

\* what the property says, independently of After
TextsAreUtf8 == \A t \in Texts : IsUtf8(box[t])
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
AppendsExactly ==
  [][last'.k = "append" =>
       LET c == last'.c
           r == Result(last'.op, last'.src)
       IN /\ IsPrefixOf(box[c], box'[c])
          /\ IF r.ok THEN SubSeq(box'[c], Len(box[c]) + 1, Len(box'[c])) = r.out ELSE box' = box
          /\ \A o \in Names \ {c} : box'[o] = box[o]]_<<box, last>>
Codes == B64 \cup B32 \cup HEXC
\* what was appended by an encoder is taken back by its decoder
RoundTrip ==
  \A c \in Codes : LET b == IF c \in HEXC THEN "hex" ELSE c IN
    \A v \in {"v0"} : LET e == Result(c \o ".enc_append_vec", box[v]).out
                    IN Len(e) <= 24 => Result(b \o ".dec_append_vec", e) = [ok |-> TRUE, out |-> box[v]]
=============================================================================
