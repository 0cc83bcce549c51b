------------------------------- MODULE LaneOps ------------------------------
(***************************************************************************)
(* The catalogue of vsimd's public primitives and helpers.                 *)
(***************************************************************************)
EXTENDS Lanes, SequencesExt

Base(name, kind, args, n, min, wasm) ==
  [name |-> name, kind |-> kind, args |-> args, n |-> n, min |-> min, wasm |-> wasm, dom |-> "any"]
Ty(u, w, n) == u \o ToString(8 * w) \o "x" \o ToString(n \div w)
Ns == {16, 32}

\* lane-wise operations of two arguments: [name, signedness, lane bytes, function, level, wasm]
Two == {
  <<"add", "u", {1, 2, 4, 8}, "add", "sse2">>, <<"sub", "u", {1, 2, 4, 8}, "sub", "sse2">>,
  <<"sub_sat", "u", {1, 2}, "subsu", "sse2">>, <<"sub_sat", "i", {1, 2}, "subss", "sse2">>,
  <<"eq", "u", {1, 2, 4}, "eq", "sse2">>, <<"lt", "u", {1, 2, 4}, "ltu", "sse2">>, <<"lt", "i", {1, 2, 4}, "lts", "sse2">>,
  <<"max", "u", {1}, "maxu", "sse2">>, <<"max", "u", {2, 4}, "maxu", "sse41">>, <<"max", "i", {2}, "maxs", "sse2">>, <<"max", "i", {1, 4}, "maxs", "sse41">>,
  <<"min", "u", {1}, "minu", "sse2">>, <<"min", "u", {2, 4}, "minu", "sse41">>, <<"min", "i", {2}, "mins", "sse2">>, <<"min", "i", {1, 4}, "mins", "sse41">>,
  <<"avgr", "u", {1}, "avgr", "sse2">>, <<"add_sat", "u", {1}, "addsu", "sse2">>, <<"add_sat", "i", {1}, "addss", "sse2">>}
TwoOp(name, n, w, f, min) ==
  IF w = 1 THEN [f |-> f] @@ Base(name, "byte2", <<n, n>>, n, min, TRUE)
  ELSE [f |-> f, w |-> w] @@ Base(name, "ripple", <<n, n>>, n, min, TRUE)
TwoOps == UNION {UNION {{TwoOp(Ty(t[2], w, n) \o "_" \o t[1], n, w, t[4], t[5]) : w \in t[3]} : n \in Ns} : t \in Two}
LogicOps == UNION {{[f |-> f] @@ Base("v" \o ToString(8 * n) \o "_" \o f, "byte2", <<n, n>>, n, "sse2", TRUE) : f \in {"and", "or", "xor", "andnot"}} : n \in Ns}
NotOps == {[f |-> "not"] @@ Base("v" \o ToString(8 * n) \o "_not", "byte1", <<n>>, n, "sse2", TRUE) : n \in Ns}

Mv(name, args, n, min, wasm, unit, w, m) == [unit |-> unit, w |-> w, m |-> m] @@ Base(name, "moves", args, n, min, wasm)
SplatOps == UNION {UNION {{Mv(Ty(u, w, n) \o "_splat", <<w>>, n, "sse2", TRUE, 8, w, "splat") : w \in {1, 2, 4, 8}} : u \in {"u", "i"}} : n \in Ns}
ZeroOps == {Mv("v" \o ToString(8 * n) \o "_create_zero", <<>>, n, "sse2", TRUE, 8, 1, "zero") : n \in Ns}
ShiftOps == UNION {UNION {UNION {{[k |-> k] @@ Mv(Ty("u", w, n) \o "_" \o s \o "." \o ToString(k), <<n>>, n, "sse2", TRUE, 1, 8 * w, s)
                                   : k \in 0 .. 8 * w - 1} : w \in {2, 4}} : s \in {"shl", "shr"}} : n \in Ns}
SwapOps == UNION {{Mv(Ty("u", w, n) \o "_bswap", <<n>>, n, "ssse3", TRUE, 8, w, "bswap") : w \in {2, 4, 8}} : n \in Ns}
Zips == {<<"zip_lo", "ziplo">>, <<"zip_hi", "ziphi">>}
ZipOps == UNION {{[blk |-> 16] @@ Mv(Ty("u", w, 16) \o (IF n = 32 THEN "x2" ELSE "") \o "_" \o z[1], <<n, n>>, n, "sse2", TRUE, 8, w, z[2])
                   : w \in {1, 2, 4, 8}, z \in Zips} : n \in Ns}
          \cup {[blk |-> 32] @@ Mv("v128x2_" \o z[1], <<32, 32>>, 32, "sse2", TRUE, 8, 16, z[2]) : z \in Zips}
UnzipOps == {Mv(Ty("u", 1, n) \o "_unzip_" \o p, <<n, n>>, n, "none", TRUE, 8, 1, p) : n \in Ns, p \in {"even", "odd"}}
            \cup {Mv("u64x4_unzip_" \o p, <<32, 32>>, 32, "sse2", TRUE, 8, 8, p) : p \in {"even", "odd"}}
PermOps == {[k |-> k] @@ Mv("u64x4_permute." \o ToString(k), <<32>>, 32, "avx2", FALSE, 8, 8, "perm") : k \in 0 .. 255}
BlendOps == {[k |-> k] @@ Mv("u16x8_blend." \o ToString(k), <<16, 16>>, 16, "sse41", FALSE, 8, 2, "blend") : k \in 0 .. 255}
            \cup {[k |-> k] @@ Mv("u32x8_blend." \o ToString(k), <<32, 32>>, 32, "avx2", FALSE, 8, 4, "blend") : k \in 0 .. 255}
MaskOps == {Mv(Ty("u", 1, n) \o "_bitmask", <<n>>, n \div 8, "sse2", TRUE, 1, 8, "high") : n \in Ns}
WidenOps == {Mv("u16x16_from_u8x16", <<16>>, 32, "sse2", TRUE, 8, 1, "widen")}
\* memory: load at an offset, store into the middle of 64 bytes
MemOps == UNION {{[at |-> a] @@ Mv("v" \o ToString(8 * n) \o "_load_unaligned." \o ToString(a), <<64>>, n, "sse2", TRUE, 8, 1, "part") : a \in 0 .. 31}
                 \cup {[at |-> 32] @@ Mv("v" \o ToString(8 * n) \o "_load", <<64>>, n, "sse2", TRUE, 8, 1, "part")}
                 \cup {[at |-> a, len |-> n, mem |-> 64] @@ Mv("v" \o ToString(8 * n) \o "_store_unaligned." \o ToString(a), <<64, n>>, 64, "sse2", TRUE, 8, 1, "put") : a \in 0 .. 31}
                 \cup {[at |-> 32, len |-> n, mem |-> 64] @@ Mv("v" \o ToString(8 * n) \o "_store", <<64, n>>, 64, "sse2", TRUE, 8, 1, "put")} : n \in Ns}
\* conversions between vector types
VecOps == {Mv("V64.bytes", <<8>>, 8, "sse2", TRUE, 8, 1, "id"), Mv("V128.bytes", <<16>>, 16, "sse2", TRUE, 8, 1, "id"),
           Mv("V256.bytes", <<32>>, 32, "sse2", TRUE, 8, 1, "id"), Mv("V512.bytes", <<64>>, 64, "sse2", TRUE, 8, 1, "id"),
           Mv("V64.to_u64", <<8>>, 8, "sse2", TRUE, 8, 1, "id"),
           Mv("V128.to_v64x2", <<16>>, 16, "sse2", TRUE, 8, 1, "id"), Mv("V256.to_v128x2", <<32>>, 32, "sse2", TRUE, 8, 1, "id"),
           Mv("V512.to_v256x2", <<64>>, 64, "sse2", TRUE, 8, 1, "id"), Mv("V256.from_v128x2", <<16, 16>>, 32, "sse2", TRUE, 8, 1, "id"),
           Mv("V512.from_v256x2", <<32, 32>>, 64, "sse2", TRUE, 8, 1, "id"),
           [half |-> 16] @@ Mv("V128.x2", <<16>>, 32, "sse2", TRUE, 8, 1, "dup"), [half |-> 16] @@ Mv("V256.double_bytes", <<16>>, 32, "sse2", TRUE, 8, 1, "dup"),
           [half |-> 32] @@ Mv("V256.x2", <<32>>, 64, "sse2", TRUE, 8, 1, "dup"), [half |-> 32] @@ Mv("V512.double_bytes", <<32>>, 64, "sse2", TRUE, 8, 1, "dup")}

MulOps == {[f |-> x[2], w |-> x[3]] @@ Base(Ty(x[4], x[3], n) \o "_" \o x[1], "mul", <<n, n>>, n, x[5], x[6]) :
             n \in Ns, x \in {<<"mul_lo", "mullo", 2, "i", "sse2", TRUE>>, <<"mul_lo", "mullo", 4, "i", "sse41", TRUE>>,
                              <<"mul_hi", "mulhiu", 2, "u", "sse2", FALSE>>, <<"mul_hi", "mulhis", 2, "i", "sse2", FALSE>>,
                              <<"maddubs", "maddubs", 2, "i", "ssse3", FALSE>>}}
          \cup {[f |-> "madd", w |-> 4] @@ Base(Ty("i", 2, n) \o "_madd", "mul", <<n, n>>, n, "sse2", FALSE) : n \in Ns}
PackOps == {Base("i16x8_packus", "pair", <<16, 16>>, 16, "sse2", FALSE)}
SelOps == {[unit |-> 1, ctl |-> 1, one |-> 2, zero |-> 3] @@ Base("v" \o ToString(8 * n) \o "_bsl", "sel", <<n, n, n>>, n, "sse2", TRUE) : n \in Ns}
          \cup {[unit |-> 8, ctl |-> 3, one |-> 2, zero |-> 1] @@ Base(Ty("u", 1, n) \o "_blendv", "sel", <<n, n, n>>, n, "sse41", FALSE) : n \in Ns}
GatherOps == {[loose |-> TRUE] @@ Base("u8x16_swizzle", "gather", <<16, 16>>, 16, "ssse3", TRUE),
              [loose |-> TRUE] @@ Base("u8x16x2_swizzle", "gather", <<32, 32>>, 32, "ssse3", TRUE)}
             \cup {[loose |-> FALSE] @@ Base("table.lookup" \o ToString(n), "gather", <<n, n>>, n, "ssse3", TRUE) : n \in Ns}
             \cup {[loose |-> FALSE] @@ Base("alsw.lookup", "gather", <<16, 1>>, 1, "sse2", TRUE)}
Fold(name, n, f, min, wasm) == [f |-> f] @@ Base(name, "fold", <<n>>, 1, min, wasm)
FoldOps == UNION {{Fold(Ty("u", 1, n) \o "_any_zero", n, "any_zero", "sse2", TRUE),
                   Fold("v" \o ToString(8 * n) \o "_all_zero", n, "all_zero", "sse41", TRUE),
                   [dom |-> "mask"] @@ Fold("mask8x" \o ToString(n) \o "_all", n, "all_ones", "sse2", TRUE),
                   [dom |-> "mask"] @@ Fold("mask8x" \o ToString(n) \o "_any", n, "any_ones", "sse2", TRUE),
                   Fold(Ty("u", 1, n) \o "_highbit_all", n, "all_high", "sse2", TRUE),
                   Fold(Ty("u", 1, n) \o "_highbit_any", n, "any_high", "sse2", TRUE),
                   Fold("hex.check" \o ToString(n), n, "all_hex", "sse2", TRUE),
                   Fold("alsw64.check" \o ToString(n), n, "all_b64", "ssse3", TRUE),
                   Fold("alsw32.check" \o ToString(n), n, "all_b32", "ssse3", TRUE)} : n \in Ns}

\* offered by Arm's instruction set alone
NeonOps == {[f |-> x[2]] @@ Base(Ty("u", 1, n) \o "_reduce_" \o x[1], "reduce", <<n>>, 1, "neon", FALSE) : n \in Ns, x \in {<<"max", "maxu">>, <<"min", "minu">>}}
           \cup {Base("u8x32_swizzle", "reach", <<32, 32>>, 32, "neon", FALSE), Mv("u8x8_unzip_even", <<8, 8>>, 8, "neon", FALSE, 8, 1, "even")}

\* the scalable forms, at 16 and 32 bytes, mean the operation of the same name at that width
Xn(n, f) == "xn" \o ToString(n) \o "." \o f
XnOps == UNION {{[f |-> f] @@ Base(Xn(n, f), "byte2", <<n, n>>, n, "sse2", TRUE) : f \in {"and", "or", "xor", "andnot"}}
   \cup {Mv(Xn(n, "u8xn_splat"), <<1>>, n, "sse2", TRUE, 8, 1, "splat"), Mv(Xn(n, "i8xn_splat"), <<1>>, n, "sse2", TRUE, 8, 1, "splat"),
         Mv(Xn(n, "u32xn_splat"), <<4>>, n, "sse2", TRUE, 8, 4, "splat"),
         TwoOp(Xn(n, "u8xn_add"), n, 1, "add", "sse2"), TwoOp(Xn(n, "u8xn_sub"), n, 1, "sub", "sse2"), TwoOp(Xn(n, "u32xn_sub"), n, 4, "sub", "sse2"),
         TwoOp(Xn(n, "u8xn_add_sat"), n, 1, "addsu", "sse2"), TwoOp(Xn(n, "i8xn_add_sat"), n, 1, "addss", "sse2"), TwoOp(Xn(n, "u8xn_sub_sat"), n, 1, "subsu", "sse2"),
         TwoOp(Xn(n, "u8xn_eq"), n, 1, "eq", "sse2"), TwoOp(Xn(n, "i8xn_lt"), n, 1, "lts", "sse2"), TwoOp(Xn(n, "u32xn_lt"), n, 4, "ltu", "sse2"),
         TwoOp(Xn(n, "u32xn_max"), n, 4, "maxu", "sse41"), TwoOp(Xn(n, "u8xn_avgr"), n, 1, "avgr", "sse2"),
         [loose |-> TRUE] @@ Base(Xn(n, "u8x16xn_swizzle"), "gather", <<n, n>>, n, "ssse3", TRUE),
         Fold(Xn(n, "all_zero"), n, "all_zero", "sse41", TRUE),
         [dom |-> "mask"] @@ Fold(Xn(n, "mask8xn_all"), n, "all_ones", "sse2", TRUE), [dom |-> "mask"] @@ Fold(Xn(n, "mask8xn_any"), n, "any_ones", "sse2", TRUE),
         Fold(Xn(n, "u8xn_highbit_all"), n, "all_high", "sse2", TRUE), Fold(Xn(n, "u8xn_highbit_any"), n, "any_high", "sse2", TRUE)}
   \cup {[k |-> k] @@ Mv(Xn(n, "u16xn_" \o s) \o "." \o ToString(k), <<n>>, n, "sse2", TRUE, 1, 16, s) : k \in {1, 4, 8, 12, 15}, s \in {"shl", "shr"}}
   \cup {[k |-> k] @@ Mv(Xn(n, "u32xn_shr") \o "." \o ToString(k), <<n>>, n, "sse2", TRUE, 1, 32, "shr") : k \in {1, 3, 4, 8, 17, 31}}
   \cup {Mv(Xn(n, "u" \o ToString(8 * w) \o "xn_bswap"), <<n>>, n, "ssse3", TRUE, 8, w, "bswap") : w \in {2, 4, 8}} : n \in Ns}

\* helpers built on them
Exp(name, args, f, min, wasm) == [f |-> f] @@ Base(name, "expand", args, 2 * args[1], min, wasm)
Con(name, args, n, min, wasm) == Base(name, "contract", args, n + 1, min, wasm)
HelpOps ==
  UNION {{[f |-> "lower"] @@ Base("ascii.lower" \o ToString(n), "byte1", <<n>>, n, "sse2", TRUE),
          [f |-> "upper"] @@ Base("ascii.upper" \o ToString(n), "byte1", <<n>>, n, "sse2", TRUE),
          Exp("alsw64.decode" \o ToString(n), <<n>>, "class64", "ssse3", TRUE), Exp("alsw32.decode" \o ToString(n), <<n>>, "class32", "ssse3", TRUE),
          Exp("hex.encode" \o ToString(n) \o ".lo", <<n>>, "hexlo", "ssse3", TRUE), Exp("hex.encode" \o ToString(n) \o ".up", <<n>>, "hexup", "ssse3", TRUE),
          Con("hex.decode" \o ToString(n), <<n>>, n \div 2, "ssse3", TRUE)} : n \in Ns}
  \cup {Con("hex.decode32x2", <<32, 32>>, 32, "ssse3", TRUE),
        Exp("hexsse2.encode.lo", <<16>>, "hexlo", "sse2only", FALSE), Exp("hexsse2.encode.up", <<16>>, "hexup", "sse2only", FALSE),
        Con("hexsse2.decode", <<16>>, 8, "sse2only", FALSE),
        [f |-> "unhex"] @@ Base("hex.unhex", "byte1", <<1>>, 1, "sse2", TRUE),
        [f |-> "avgr"] @@ Base("alsw.avgr", "byte2", <<1, 1>>, 1, "sse2", TRUE),
        [f |-> "hash"] @@ Base("alsw.hash", "alsw", <<16, 16, 1>>, 1, "sse2", TRUE),
        [f |-> "check"] @@ Base("alsw.check", "alsw", <<16, 16, 1>>, 1, "sse2", TRUE),
        [f |-> "decode"] @@ Base("alsw.decode", "alsw", <<16, 16, 1>>, 1, "sse2", TRUE),
        Mv("sim.u8x16_bitmask", <<16>>, 2, "sse2", TRUE, 1, 8, "high"), Base("sim.i16x8_packus", "pair", <<16, 16>>, 16, "sse2", TRUE)}
  \cup {[k |-> k] @@ Mv("sim.u16x8_" \o s \o "." \o ToString(k), <<16>>, 16, "sse2", TRUE, 1, 16, s) : k \in 0 .. 15, s \in {"shl", "shr"}}
  \cup {Mv("bswap." \o x[1] \o ToString(8 * w), <<x[2] * w>>, x[2] * w, x[3], TRUE, 8, w, "bswap") :
          w \in {2, 4, 8}, x \in {<<"single", 1, "sse2">>, <<"simd3_", 3, "ssse3">>, <<"fall", 5, "sse2">>, <<"simd37_", 37, "ssse3">>}}

Ops == TwoOps \cup LogicOps \cup NotOps \cup SplatOps \cup ZeroOps \cup ShiftOps \cup SwapOps \cup ZipOps \cup UnzipOps
       \cup PermOps \cup BlendOps \cup MaskOps \cup WidenOps \cup MemOps \cup VecOps \cup MulOps \cup PackOps \cup SelOps
       \cup GatherOps \cup FoldOps \cup NeonOps \cup XnOps \cup HelpOps
\* Arm's shift-right instructions take 1 and more: a shift by 0 does not compile there
OnNeon(o) == (o.wasm \/ o.min = "neon") /\ ~(o.kind = "moves" /\ o.m = "shr" /\ o.k = 0)
OpSeq == SetToSeq(Ops)
Names == {o.name : o \in Ops}
ASSUME Cardinality(Names) = Cardinality(Ops)          \* names are unique
OpOf == [x \in Names |-> CHOOSE o \in Ops : o.name = x]
=============================================================================
