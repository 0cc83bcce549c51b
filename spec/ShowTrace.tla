----------------------------- MODULE ShowTrace -----------------------------
(* Display adapters: the text of the form, cut to the precision, padded to   *)
(* the width (left unless asked otherwise; the larger half of an odd padding *)
(* of centred text goes behind), written to a sink with limited room.  The   *)
(* flags for numbers (sign, alternative form, zeros) have no effect on text.  *)
EXTENDS Uuid, Json, IOUtils, TLC
Events == ndJsonDeserialize(IOEnv.TRACE)

Cut(t, p) == IF p >= 0 /\ p < Len(t) THEN SubSeq(t, 1, p) ELSE t
Pad(t, w, align, fill) ==
  LET k == IF w > Len(t) THEN w - Len(t) ELSE 0
      a == CASE align = ">" -> k [] align = "^" -> k \div 2 [] OTHER -> 0
  IN Rep(fill, a) \o t \o Rep(fill, k - a)
Shown(e) == Pad(Cut(UuidFormat(e.form, e.kind = "X", e.src), e.prec), e.width, e.align, e.fill)

VARIABLE l
Init == l = 1
Good(e) == IF Len(Shown(e)) <= e.room THEN e.tag = "ok" /\ e.out = Shown(e) ELSE e.tag = "err"
Next == l <= Len(Events) /\ Good(Events[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Events) THEN TRUE
            ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter,
                          Events[TLCGet("stats").diameter]>>) /\ FALSE
=============================================================================
