---------------------------- MODULE MachineEquiv ----------------------------
(***************************************************************************)
(* Streaming machine = declarative definition, compared by TLC on every    *)
(* word up to a bounded length over a reduced alphabet that has one member *)
(* of every character class (behaviour: the word grows one byte per step). *)
(***************************************************************************)
EXTENDS Machines, TLC

CONSTANTS Ids, MaxLen(_), Letters(_)

VARIABLES id, w, st, out, alive
vars == <<id, w, st, out, alive>>

Init == /\ id \in Ids /\ w = <<>> /\ st = Init0(Machines[id]) /\ out = <<>> /\ alive = TRUE

Append1(b) ==
  LET r == Step(Machines[id], st, b) IN
  /\ w' = Append(w, b)
  /\ UNCHANGED id
  /\ IF alive /\ r.ok THEN st' = r.next /\ out' = out \o r.out /\ alive' = TRUE
     ELSE st' = <<>> /\ out' = <<>> /\ alive' = FALSE
Next == Len(w) < MaxLen(id) /\ \E b \in Letters(id) : Append1(b)
Spec == Init /\ [][Next]_vars

Result == IF ~alive THEN Fail
          ELSE LET f == Finish(Machines[id], st)
               IN IF f.ok THEN Ok(out \o f.out) ELSE Fail

Equivalent == Result = Declared(id, w)

\* A word that leads back to the start can be repeated: what a call does with
\* k of them and another word is k times its result, then the result of the
\* other (this is what sources of more than 4 GiB are checked with).
Repeat(x, k) == [i \in 1 .. k * Len(x) |-> x[((i - 1) % Len(x)) + 1]]
Blocks ==
  (alive /\ st = Init0(Machines[id]) /\ w # <<>>) =>
     \A v \in {<<>>} \cup {<<b>> : b \in Letters(id)} \cup {<<b, b>> : b \in Letters(id)} :
        LET d == Declared(id, v)
            e == Declared(id, Repeat(w, 3) \o v)
        IN IF d.ok THEN e = Ok(Repeat(out, 3) \o d.out) ELSE e = Fail

\* Consequences of the definitions a user relies on -------------------------
\* an encoder followed by the matching decoder is the identity; a decoder
\* accepts only what the encoder produces (one encoding per byte string)
RoundTrip ==
  LET m == Machines[id] IN
  /\ m.kind = "enc" => LET e == Encode(Codecs[m.c], w)
                       IN /\ Decode(Codecs[m.c], e) = Ok(w)
                          /\ Len(e) = EncLen(Codecs[m.c], Len(w))
                          /\ m.c = "b64std" => Whatwg(e) = Ok(w)
  /\ (m.kind = "dec" /\ m.mode = "strict" /\ m.c # "hexlo") =>
        LET d == Decode(Codecs[m.c], w) IN d.ok => Encode(Codecs[m.c], d.out) = w
  \* whatever strict decoding accepts, forgiving decoding accepts with the same result
  /\ (m.kind = "dec" /\ m.mode = "forgiving") =>
        \A c \in {"b64std", "b64stdnp"} :
            LET d == Decode(Codecs[c], w) IN d.ok => Whatwg(w) = d
=============================================================================
