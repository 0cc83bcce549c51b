--------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The public operations of the crates, as relations over observable       *)
(* effects.  Every operation is one entry of OpTable:                      *)
(*   m     the machine it computes (module Machines)                       *)
(*   form  how it delivers the result                                      *)
(*           slice    into a destination slice, returning the filled part  *)
(*           raw      through raw pointers, destination exactly big enough *)
(*           fixed    into a destination array of the exact size           *)
(*           inplace  over its own input                                   *)
(*           owned    as a new allocation                                  *)
(*           append   at the end of a Vec / String                         *)
(*           test     as yes / no                                          *)
(*           length   only the length of the result                        *)
(*   pol   what a destination of dlen bytes does to the outcome            *)
(*           exact    Err iff it cannot hold the result                    *)
(*           srclen   Err iff it is shorter than the source                *)
(*           panic    documented panic iff shorter than the source         *)
(*           none     no destination                                       *)
(*   unit  size in bytes of the element type of source and destination     *)
(***************************************************************************)
EXTENDS Machines, TLC

Op(m, form, pol, unit) == [m |-> m, form |-> form, pol |-> pol, unit |-> unit]

B64 == {"b64std", "b64url", "b64stdnp", "b64urlnp"}
B32 == {"b32", "b32hex", "b32np", "b32hexnp"}
HEXC == {"hexlo", "hexup"}

OpOf(pre, suf, o) == (pre \o suf) :> o

EncOps(c) ==
  LET m == "enc_" \o c IN
     OpOf(c, ".encode",        Op(m, "slice",  "exact", 1))
  @@ OpOf(c, ".encode_as_str", Op(m, "slice",  "exact", 1))
  @@ OpOf(c, ".enc_boxbytes",  Op(m, "owned",  "none", 1))
  @@ OpOf(c, ".enc_boxstr",    Op(m, "owned",  "none", 1))
  @@ OpOf(c, ".enc_vec",       Op(m, "owned",  "none", 1))
  @@ OpOf(c, ".enc_string",    Op(m, "owned",  "none", 1))
  @@ OpOf(c, ".to_string",     Op(m, "owned",  "none", 1))
  @@ OpOf(c, ".enc_append_vec",    Op(m, "append", "none", 1))
  @@ OpOf(c, ".enc_append_string", Op(m, "append", "none", 1))

DecOps(c, m) ==
     OpOf(c, ".decode",         Op(m, "slice",   "exact", 1))
  @@ OpOf(c, ".decode_inplace", Op(m, "inplace", "none", 1))
  @@ OpOf(c, ".dec_box",        Op(m, "owned",   "none", 1))
  @@ OpOf(c, ".dec_vec",        Op(m, "owned",   "none", 1))
  @@ OpOf(c, ".to_vec",         Op(m, "owned",   "none", 1))
  @@ OpOf(c, ".dec_append_vec", Op(m, "append",  "none", 1))

CheckOps(c, m) ==
     OpOf(c, ".check",          Op(m, "test",    "none", 1))
  @@ OpOf(c, ".decoded_length", Op(m, "length",  "none", 1))

RECURSIVE Merge(_, _)
Merge(F(_), S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE
                                           IN F(x) @@ Merge(F, S \ {x})

B64Ops == Merge(LAMBDA c : EncOps(c) @@ DecOps(c, "dec_" \o c) @@ CheckOps(c, "dec_" \o c), B64)
B32Ops == Merge(LAMBDA c : EncOps(c) @@ DecOps(c, "dec_" \o c) @@ CheckOps(c, "dec_" \o c), B32)
ParOps == Merge(LAMBDA c : OpOf(c, ".par_encode", Op("enc_" \o c, "slice", "exact", 1)), B64)
HexOps ==
     Merge(LAMBDA c : EncOps(c) @@ OpOf(c, ".encode_raw", Op("enc_" \o c, "raw", "none", 1)), HEXC)
  @@ DecOps("hex", "dec_hex")
  @@ OpOf("hex", ".decode_raw",         Op("dec_hex", "raw", "none", 1))
  @@ OpOf("hex", ".decode_raw_inplace", Op("dec_hex", "inplace", "none", 1))
  @@ OpOf("hex", ".check",              Op("digits", "test", "none", 1))
  @@ OpOf("hex", ".check_raw",          Op("digits", "test", "none", 1))
ForgivingOps ==
     OpOf("forgiving", ".decode",         Op("forgiving", "slice",   "srclen", 1))
  @@ OpOf("forgiving", ".decode_inplace", Op("forgiving", "inplace", "none", 1))
  @@ OpOf("forgiving", ".to_vec",         Op("forgiving", "owned",   "none", 1))
UuidParseOps ==
     OpOf("uuid", ".parse",             Op("parse_any",    "fixed", "none", 1))
  @@ OpOf("uuid", ".parse_simple",      Op("parse_simple", "fixed", "none", 1))
  @@ OpOf("uuid", ".parse_hyphenated",  Op("parse_hyphen", "fixed", "none", 1))
  @@ OpOf("uuid", ".ext_parse",            Op("parse_any",    "owned", "none", 1))
  @@ OpOf("uuid", ".ext_parse_simple",     Op("parse_simple", "owned", "none", 1))
  @@ OpOf("uuid", ".ext_parse_hyphenated", Op("parse_hyphen", "owned", "none", 1))
UuidFmtOps ==
     OpOf("uuid", ".format_simple_lo", Op("fmt_simple_lo", "fixed", "none", 1))
  @@ OpOf("uuid", ".format_simple_up", Op("fmt_simple_up", "fixed", "none", 1))
  @@ OpOf("uuid", ".format_hyphen_lo", Op("fmt_hyphen_lo", "fixed", "none", 1))
  @@ OpOf("uuid", ".format_hyphen_up", Op("fmt_hyphen_up", "fixed", "none", 1))
  @@ OpOf("uuid", ".ext_simple_x", Op("fmt_simple_lo", "owned", "none", 1))
  @@ OpOf("uuid", ".ext_simple_X", Op("fmt_simple_up", "owned", "none", 1))
  @@ OpOf("uuid", ".ext_simple_d", Op("fmt_simple_lo", "owned", "none", 1))
  @@ OpOf("uuid", ".ext_hyphen_x", Op("fmt_hyphen_lo", "owned", "none", 1))
  @@ OpOf("uuid", ".ext_hyphen_X", Op("fmt_hyphen_up", "owned", "none", 1))
  @@ OpOf("uuid", ".ext_hyphen_d", Op("fmt_hyphen_lo", "owned", "none", 1))
AsciiOps ==
     OpOf("unicode", ".is_ascii",   Op("ascii",    "test",  "none", 1))
  @@ OpOf("unicode", ".from_ascii", Op("asciistr", "owned", "none", 1))
Utf32Ops == OpOf("unicode", ".is_utf32le", Op("utf32", "test", "none", 4))
SwapOps ==
     OpOf("unicode", ".swap16",         Op("swap2", "slice",   "panic", 2))
  @@ OpOf("unicode", ".swap16_inplace", Op("swap2", "inplace", "none", 2))
  @@ OpOf("unicode", ".swap32",         Op("swap4", "slice",   "panic", 4))
  @@ OpOf("unicode", ".swap32_inplace", Op("swap4", "inplace", "none", 4))

OpTable == B64Ops @@ B32Ops @@ HexOps @@ ForgivingOps @@ UuidParseOps @@ UuidFmtOps
             @@ AsciiOps @@ Utf32Ops @@ SwapOps @@ ParOps
OpNames == DOMAIN OpTable

(***************************************************************************)
(* Outcome of one call that owns its result: what it may return.           *)
(*   tag "ok" with out, "err", or "panic"                                  *)
(* dlen is the destination length in bytes (ignored without destination).  *)
(***************************************************************************)
Outcome(op, src, dlen) ==
  LET o == OpTable[op]
      r == Declared(o.m, src)
      fits == CASE o.pol = "exact"  -> Len(r.out) <= dlen
                [] o.pol \in {"srclen", "panic"} -> Len(src) <= dlen
                [] o.pol = "none"   -> TRUE
  IN IF o.pol = "panic" /\ ~fits THEN [tag |-> "panic", out |-> <<>>]
     ELSE IF r.ok /\ fits
     THEN [tag |-> "ok", out |-> IF o.form = "test" THEN <<>> ELSE r.out]
     ELSE [tag |-> "err", out |-> <<>>]
=============================================================================
