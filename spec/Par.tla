--------------------------------- MODULE Par --------------------------------
(***************************************************************************)
(* Parallel encoding: the source is cut into chunks of a whole number of   *)
(* quanta, workers encode chunks in any order into the matching parts of   *)
(* the destination.  One model step writes one quantum, so all schedules   *)
(* of the workers are explored.                                            *)
(*                                                                         *)
(* A destination cell holds <<"sym", j>>, the j-th symbol of the text of   *)
(* the WHOLE source, or "pad", or Old.  Grain is the least number of       *)
(* source bytes per worker (4096 in the code, small here).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, MaxP, Grain

VARIABLES n, p, pad, dlen,     \* the call
          dst,                 \* cells 1 .. dlen
          todo,                \* chunks nobody has taken
          work,                \* worker |-> <<chunk, next quantum>> or Free
          tag                  \* "run", "ok", "err"
vars == <<n, p, pad, dlen, dst, todo, work, tag>>
Old == <<"old", 0>>
Free == <<>>
Min(a, b) == IF a < b THEN a ELSE b
SymLen(k) == (8 * k + 5) \div 6
EncLen(k, pd) == IF pd THEN 4 * ((k + 2) \div 3) ELSE SymLen(k)

\* sequential encoding of k bytes, as cells
Cells(k, pd) == [j \in 1 .. EncLen(k, pd) |-> IF j <= SymLen(k) THEN <<"sym", j>> ELSE <<"pad", 0>>]

Quanta  == n \div 3                       \* whole quanta
Chunk   == (Quanta + p) \div p            \* quanta per chunk
Bytes   == 3 * Chunk
NChunks == (n + Bytes - 1) \div Bytes
Direct  == n < p * Grain \/ p < 2 \/ Quanta < p
ChunkLen(i) == Min(Bytes, n - (i - 1) * Bytes)
\* a chunk that is a whole number of quanta needs no padding
ChunkPad(i) == pad /\ ChunkLen(i) % 3 # 0
ChunkCells(i) == EncLen(ChunkLen(i), ChunkPad(i))
Off(i) == 4 * Chunk * (i - 1)
Steps(i) == (ChunkCells(i) + 3) \div 4

Init == /\ n \in 0 .. MaxN /\ p \in 1 .. MaxP /\ pad \in BOOLEAN
        /\ \E d \in {0, EncLen(n, pad) - 1, EncLen(n, pad), EncLen(n, pad) + 2} : d >= 0 /\ dlen = d
        /\ dst = [j \in 1 .. dlen |-> Old]
        /\ todo = {} /\ work = [w \in 1 .. p |-> Free] /\ tag = "run"

Reject == tag = "run" /\ todo = {} /\ dlen < EncLen(n, pad) /\ tag' = "err" /\ UNCHANGED <<n, p, pad, dlen, dst, todo, work>>
Sequential == /\ tag = "run" /\ todo = {} /\ dlen >= EncLen(n, pad) /\ Direct
              /\ dst' = [j \in 1 .. dlen |-> IF j <= EncLen(n, pad) THEN Cells(n, pad)[j] ELSE dst[j]]
              /\ tag' = "ok" /\ UNCHANGED <<n, p, pad, dlen, todo, work>>
Split == /\ tag = "run" /\ dlen >= EncLen(n, pad) /\ ~Direct
         /\ tag' = "par" /\ todo' = 1 .. NChunks /\ UNCHANGED <<n, p, pad, dlen, dst, work>>
Take(w) == /\ tag = "par" /\ work[w] = Free
           /\ \E i \in todo : todo' = todo \ {i} /\ work' = [work EXCEPT ![w] = <<i, 1>>]
           /\ UNCHANGED <<n, p, pad, dlen, dst, tag>>
\* one quantum of chunk i: the symbols are those of the whole source because
\* the chunk starts at a quantum boundary
Write(w) == /\ work[w] # Free
            /\ LET i == work[w][1]
                   k == work[w][2]
                   lo == 4 * (k - 1) + 1
                   hi == Min(4 * k, ChunkCells(i))
                   shift(c) == IF c[1] = "sym" THEN <<"sym", c[2] + Off(i)>> ELSE c
               IN /\ dst' = [j \in 1 .. dlen |-> IF j - Off(i) \in lo .. hi
                                                 THEN shift(Cells(ChunkLen(i), ChunkPad(i))[j - Off(i)]) ELSE dst[j]]
                  /\ work' = [work EXCEPT ![w] = IF k < Steps(i) THEN <<i, k + 1>> ELSE Free]
            /\ UNCHANGED <<n, p, pad, dlen, todo, tag>>
Join == /\ tag = "par" /\ todo = {} /\ \A w \in 1 .. p : work[w] = Free
        /\ tag' = "ok" /\ UNCHANGED <<n, p, pad, dlen, dst, todo, work>>
Next == Reject \/ Sequential \/ Split \/ Join \/ \E w \in 1 .. p : Take(w) \/ Write(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the outcome is that of sequential encoding
Agrees == /\ tag = "err" => dlen < EncLen(n, pad) /\ \A j \in 1 .. dlen : dst[j] = Old
          /\ tag = "ok" => /\ dlen >= EncLen(n, pad)
                           /\ \A j \in 1 .. dlen : dst[j] = IF j <= EncLen(n, pad) THEN Cells(n, pad)[j] ELSE Old
\* chunks cover the text without overlap
Tiling == tag = "par" => /\ \A i \in 1 .. NChunks - 1 : ChunkCells(i) = 4 * Chunk /\ ~ChunkPad(i)
                         /\ Off(NChunks) + ChunkCells(NChunks) = EncLen(n, pad)
                         /\ NChunks <= p
\* a cell is written at most once
WriteOnce == [][\A j \in 1 .. dlen : dst[j] # Old => dst'[j] = dst[j]]_vars
Ends == <>(tag \in {"ok", "err"})

Outcome(len, pd, d) == IF d < EncLen(len, pd) THEN "err" ELSE "ok"
=============================================================================
