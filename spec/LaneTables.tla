----------------------------- MODULE LaneTables -----------------------------
(* Writes the catalogue and the byte-level tables out for the driver. *)
EXTENDS LaneOps, Json, IOUtils
All65536(F(_, _)) == [i \in 1 .. 65536 |-> F((i - 1) \div 256, (i - 1) % 256)]
T1 == {[t |-> "byte1", f |-> f, v |-> [i \in 1 .. 256 |-> F1(f, i - 1)]] : f \in {o.f : o \in {p \in Ops : p.kind = "byte1"}}}
T2 == {[t |-> "byte2", f |-> f, v |-> LET G(a, b) == F2(f, a, b) IN All65536(G)] : f \in {o.f : o \in {p \in Ops : p.kind = "byte2"}}}
TP == {[t |-> "pair", f |-> "packus", v |-> All65536(Packus)], [t |-> "contract", f |-> "unhex2", v |-> All65536(Unhex2)]}
TR == UNION {UNION {{[t |-> "ripple", f |-> m \o (IF last THEN ".last." ELSE ".") \o ToString(s),
         v |-> LET G(a, b) == LET r == RStep(m, s, a, b, last, 256) IN 256 * r[1] + r[2] IN All65536(G)]
        : s \in 0 .. RStates[m] - 1} : last \in BOOLEAN} : m \in DOMAIN RStates}
TF == {[t |-> "fold", f |-> f, v |-> [i \in 1 .. 512 |-> FoldStep(f, (i - 1) \div 256, (i - 1) % 256)] \o <<FoldFin(f, 0), FoldFin(f, 1)>>]
        : f \in {o.f : o \in {p \in Ops : p.kind = "fold"}}}
TE == {[t |-> "expand", f |-> f, v |-> [i \in 1 .. 512 |-> Expand(f, (i - 1) \div 2)[((i - 1) % 2) + 1]]]
        : f \in {o.f : o \in {p \in Ops : p.kind = "expand"}}}
Op(o) == [t |-> "op", name |-> o.name, kind |-> o.kind, args |-> o.args, n |-> o.n, min |-> o.min, wasm |-> o.wasm, neon |-> OnNeon(o), dom |-> o.dom,
          f |-> IF o.kind \in {"moves", "pair", "contract", "gather", "reach", "sel"} THEN "-" ELSE o.f,
          p |-> CASE o.kind = "ripple" -> <<o.w>> [] o.kind = "mul" -> <<o.w>>
                  [] o.kind = "moves" -> <<o.unit>> \o [j \in 1 .. o.n * (8 \div o.unit) |-> Src(o, j)]
                  [] o.kind = "sel" -> <<o.unit, o.ctl, o.one, o.zero>>
                  [] o.kind = "gather" -> <<IF o.loose THEN 1 ELSE 0>> [] OTHER -> <<>>]
RF == {[t |-> "fin", f |-> f, m |-> RMach[f], v |-> RFin[f]] : f \in DOMAIN RFin}
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1 .. Len(OpSeq) |-> Op(OpSeq[i])] \o SetToSeq(T1) \o SetToSeq(T2) \o SetToSeq(TP)
                       \o SetToSeq(TR) \o SetToSeq(TF) \o SetToSeq(TE) \o SetToSeq(RF))
ASSUME PrintT(<<"operations", Cardinality(Ops)>>)
=============================================================================
