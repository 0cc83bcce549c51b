#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]   (see DESIGN.md)"""
import json, os, sys, traceback
import concurrent.futures as futures
from vlib import Check, ToolError, LEVELS, HOOK, NIGHTLY, NEON, STABLE, cpu_levels

B64 = ["b64std", "b64url", "b64stdnp", "b64urlnp"]
B32 = ["b32", "b32hex", "b32np", "b32hexnp"]
HEX = ["hexlo", "hexup"]
ENC = ["encode", "encode_as_str", "enc_boxbytes", "enc_boxstr", "enc_vec", "enc_string", "to_string",
       "enc_append_vec", "enc_append_string"]
DEC = ["decode", "decode_inplace", "dec_box", "dec_vec", "to_vec", "dec_append_vec"]


def ops(cs, forms):
    return [f"{c}.{f}" for c in cs for f in forms]


def giants(c, tables, light, heavy=(), kinds=("result", "short")):
    """Sources of more than 4 GiB; thorough: 16 GiB, at every level."""
    if c.quick:
        done = [c.giant(tables, light, kinds=kinds), c.giant(tables, list(heavy)[:2], levels=["native"])]
    else:
        done = [c.giant(tables, light, levels=["native"] + cpu_levels(), least=1 << 34, tails=2, kinds=kinds), c.giant(tables, list(heavy))]
    for d in done:
        d()


def giants_against(c, tables, pairs, levels, builds=None):
    """Sources of more than 4 GiB: the deviations of an operation that its reference does not share."""
    for d in [c.giant(tables, [o for o, r in pairs], levels=levels, builds=builds),
              c.giant(tables, sorted({r for o, r in pairs}), levels=levels, builds=builds)]:
        d()
    ref = dict(pairs)
    big = [v for v in c.viol if str(v.get("where")).startswith("giant-")]
    off = {(v["op"], v["level"]) for v in big}
    c.viol = [v for v in c.viol if v not in big] + [v for v in big if v["op"] in ref and (ref[v["op"]], v["level"]) not in off]


def elsewhere(c, tables, operations, kinds, verdict_only=False, confirm=None):
    """Thorough: the same operations on other architectures (WebAssembly with and without SIMD in node, 32-bit x86 natively,
    aarch64 with NEON and big-endian s390x in the Miri interpreter), calls and outcomes from the specification."""
    if c.quick or verdict_only or confirm:
        return lambda: None
    b = dict(i686=c.pool.submit(c.build_i686), wasm=c.pool.submit(c.build_wasm, "wasm", HOOK),
             simd128=c.pool.submit(c.build_wasm, "wasm-simd128", HOOK + " -C target-feature=+simd128"))
    mi = {t: c.pool.submit(c.miri_setup, t) for t in ("s390x-unknown-linux-gnu", NEON)}
    lens = sorted(set(range(0, 140)) | {192, 200, 257, 400, 512, 1000})
    cases = c.cases(tables, operations, lens, 12, name="elsewhere")
    small = c.cases(tables, operations, [0, 1, 5, 9, 16, 24, 33, 40, 47, 64, 96, 131], 3, name="interpreted", seed=c.seed + 9)

    def go():
        fs, traces = [], []
        for k, f in b.items():
            f = f.result()
            if f is None:
                c.note(builds_not_possible_here=[k])
                continue
            for l in (["native", "fallback", "sse2", "ssse3", "sse4.1"] if k == "i686" else ["native"]):
                fs.append(c.pool.submit(c.replay, f, cases, f"{k}-{l}", every=50, level=l))
        for t, f in mi.items():
            f.result()
            fs += [c.pool.submit(c.replay, None, small, "neon" if t == NEON else "s390x", miri=t, part=i, parts=4, every=5) for i in range(4)]
        for f in fs:
            f.result()
        c.viol = [v for v in c.viol if not (str(v.get("kind")) in ("memory", "short", "spanic", "excess") and v["kind"] not in kinds)]
    return go


def simple(c, machines, operations, families, kinds, codecs=None, deep=1, record=500, checked=True, giant=None, **kw):
    """Lockstep at every instruction-set level (release) and natively with debug assertions,
    model checking of the machines, and TLC validation of recorded events."""
    tables = c.tables(machines)
    laws = c.laws(machines)
    builds = [("release", lambda: c.build(), cpu_levels(), "quick" if c.quick else "thorough")]
    if checked:
        f = c.pool.submit(c.build, "checked", profile="checked")
        builds.append(("checked", lambda: f.result(), ["native", "fallback"], "tiny" if c.quick else "quick"))
    recs = c.lockstep(tables, operations, families, builds=builds, kinds=kinds, deep=deep, record=record, **kw)
    v = c.pool.submit(c.validate, recs) if recs else None
    elsewhere(c, tables, operations, kinds, kw.get("verdict_only"), kw.get("confirm"))()
    if giant:
        giants(c, tables, *giant)
    if codecs:
        r = c.run_driver(c.build(), ["facts", "--spec", tables, "--codecs", ",".join(codecs)], "facts",
                         context=dict(build="release", level="native"))
        if r:
            c.note(length_and_constant_evaluations=r["calls"])
    for l in laws:
        l.result()
    if v:
        c.note(trace_events_recorded=v.result())


ALLFAM = ["short", "lengths", "cover", "edges", "corrupt", "fill", "random", "large"]
RES = ["result", "panic", "prefix"]


def C01(c): simple(c, ["enc_" + x for x in B64], ops(B64, ENC), ALLFAM, RES, codecs=B64,
                      giant=(ops(B64, ["encode"]), ops(B64, ["to_string"])))
def C02(c): simple(c, ["dec_" + x for x in B64], ops(B64, DEC), ALLFAM, RES,
                      giant=(ops(B64, ["decode"]), ops(B64, ["to_vec"])))
def C03(c): simple(c, ["forgiving", "dec_b64std"], ["forgiving.decode", "forgiving.decode_inplace", "forgiving.to_vec"], ALLFAM + ["under"], RES + ["short", "spanic"],
                      giant=([], ["forgiving.decode", "forgiving.decode_inplace", "forgiving.to_vec"]))
def C04(c): simple(c, ["enc_" + x for x in B32], ops(B32, ENC), ALLFAM, RES, codecs=B32,
                      giant=(ops(B32, ["encode"]), ops(B32, ["to_string"])))
def C05(c): simple(c, ["dec_" + x for x in B32], ops(B32, DEC), ALLFAM, RES,
                      giant=(ops(B32, ["decode"]), ops(B32, ["to_vec"])))
def C06(c):
    simple(c, ["enc_hexlo", "enc_hexup", "dec_hex"],
           ops(HEX, ENC + ["encode_raw"]) + ops(["hex"], DEC + ["decode_raw", "decode_raw_inplace"]), ALLFAM, RES, codecs=HEX,
           giant=(ops(HEX, ["encode"]) + ["hex.decode", "hex.decode_raw"], ["hexlo.to_string", "hex.to_vec", "hexup.enc_append_string", "hex.dec_append_vec"]))
def C07(c):
    simple(c, ["dec_" + x for x in B64 + B32] + ["dec_hex", "digits"],
           ops(B64 + B32, ["check", "decoded_length", "decode"]) + ["hex.check", "hex.check_raw", "hex.decode"], ALLFAM, ["result", "panic"], verdict_only=True,
           giant=(ops(B64 + B32, CHK) + ["hex.check", "hex.check_raw"],))
def C09(c):
    simple(c, ["parse_any", "parse_simple", "parse_hyphen"],
           ops(["uuid"], ["parse", "parse_simple", "parse_hyphenated", "ext_parse", "ext_parse_simple", "ext_parse_hyphenated"]), ALLFAM, RES)
def C10(c):
    # the display adapters under every formatting parameter; the events are judged by TLC
    lv, traces, fs = cpu_levels(), [], []
    for b, prof in (("release", None), ("checked", "checked")):
        binary = c.build() if prof is None else c.build(b, profile=prof)
        for l in lv if prof is None else lv[-1:]:
            traces.append(c.path(f"show-{b}-{l}.ndjson"))
            fs.append(c.pool.submit(c.run_driver, binary, ["show", "--level", l, "--rounds", "150" if c.quick else "3000", "--trace", traces[-1]], f"show-{b}-{l}", 840, None,
                                    dict(build=b, level=l)))
    for f in fs:
        r = f.result()
        if r:
            c.note(display_events=r["calls"])
    judged = [c.pool.submit(c.validate, [t], "ShowTrace", "display adapter") for t in traces if os.path.exists(t)]
    simple(c, ["fmt_simple_lo", "fmt_simple_up", "fmt_hyphen_lo", "fmt_hyphen_up"],
           ops(["uuid"], ["format_simple_lo", "format_simple_up", "format_hyphen_lo", "format_hyphen_up", "ext_simple_x", "ext_simple_X",
                          "ext_simple_d", "ext_hyphen_x", "ext_hyphen_X", "ext_hyphen_d"]), ALLFAM, RES)
    for j in judged:
        j.result()
def C11(c): simple(c, ["ascii", "asciistr"], ["unicode.is_ascii", "unicode.from_ascii"], ALLFAM + ["place"], RES,
                      giant=(["unicode.is_ascii"], ["unicode.from_ascii"]))
def C12(c): simple(c, ["utf32"], ["unicode.is_utf32le"], ALLFAM + ["place", "units"], RES, giant=(["unicode.is_utf32le"],))
def C13(c):
    simple(c, ["swap2", "swap4"], ["unicode.swap16", "unicode.swap32", "unicode.swap16_inplace", "unicode.swap32_inplace"],
           ALLFAM + ["place", "under"], RES + ["short", "spanic", "memory", "excess"],
           giant=(["unicode.swap16", "unicode.swap32"], ["unicode.swap16_inplace", "unicode.swap32_inplace"]))


M_B64 = ["enc_" + x for x in B64] + ["dec_" + x for x in B64] + ["forgiving"]
M_B32 = ["enc_" + x for x in B32] + ["dec_" + x for x in B32]
M_HEX = ["enc_hexlo", "enc_hexup", "dec_hex", "digits"]
M_UUID = ["parse_any", "parse_simple", "parse_hyphen", "fmt_simple_lo", "fmt_simple_up", "fmt_hyphen_lo", "fmt_hyphen_up"]
M_UNI = ["ascii", "asciistr", "utf32", "swap2", "swap4"]
M_ALL = M_B64 + M_B32 + M_HEX + M_UUID + M_UNI
CHK = ["check", "decoded_length"]
UUID_OPS = ops(["uuid"], ["parse", "parse_simple", "parse_hyphenated", "ext_parse", "ext_parse_simple", "ext_parse_hyphenated",
                          "format_simple_lo", "format_simple_up", "format_hyphen_lo", "format_hyphen_up", "ext_simple_x", "ext_simple_X",
                          "ext_simple_d", "ext_hyphen_x", "ext_hyphen_X", "ext_hyphen_d"])
UNI_OPS = ops(["unicode"], ["is_ascii", "from_ascii", "is_utf32le", "swap16", "swap32", "swap16_inplace", "swap32_inplace"])
FORG_OPS = ["forgiving.decode", "forgiving.decode_inplace", "forgiving.to_vec"]
HEX_OPS = ops(HEX, ENC + ["encode_raw"]) + ops(["hex"], DEC + ["decode_raw", "decode_raw_inplace", "check", "check_raw"])
ALL_OPS = ops(B64 + B32, ENC + DEC + CHK) + HEX_OPS + FORG_OPS + UUID_OPS + UNI_OPS


def C08(c):
    """Length functions.  The laws are proved over all naturals by Apalache and re-checked by TLC;
    the closed form they justify is evaluated against the code over the whole machine-word range."""
    ap = c.pool.submit(c.apalache, "Lengths", "LengthLaws")
    tl = c.pool.submit(c.tlc, "Lengths")
    i686 = c.pool.submit(c.build_i686)
    tables = c.tables([])
    codecs = ",".join(B64 + B32 + HEX)
    f = c.pool.submit(c.build, "checked", profile="checked")
    n = "200000" if c.quick else "1000000"
    for name, b in [("release", c.build()), ("checked", f.result())]:
        r = c.run_driver(b, ["facts", "--spec", tables, "--codecs", codecs, "--range", "full", "--random", n], name,
                         context=dict(build=name, level="native"))
        if r:
            c.traces += r["calls"]
            c.note(evaluations=r["calls"], points=r["words"])
            c.samples.append(f"{name}: {r['words']} lengths x {len(codecs.split(','))} codecs")
    i686 = i686.result()
    if i686:
        parts = 8
        fs = [c.pool.submit(c.run_driver, i686, ["facts", "--spec", tables, "--codecs", codecs, "--range", "full", "--random", n, "--stride", "64" if c.quick else "1",
                                                 "--part", str(p), "--parts", str(parts)], f"i686-{p}", 840, None, dict(build="i686", level="native")) for p in range(parts)]
        for f in fs:
            r = f.result()
            if r:
                c.traces += r["calls"]
                c.note(evaluations_32_bit=r["calls"])
    else:
        c.note(builds_not_possible_here=["i686"])
    tl.result()
    c.note(laws_proved_over_all_naturals=ap.result())


def confirm_differs(c, variants, reference=None):
    """Keep a deviation only if the call gives different outcomes in different variants
    [(label, binary, level)]; with `reference`, only if the deviating variant differs from it."""
    keep = []
    for v in c.viol:
        if v["kind"] == "trace" or v.get("op") in (None, "?") or v.get("src_len", 0) > 1 << 20:
            keep.append(v)
            continue
        outs = {lab: c.one(b, lv, v["op"], v["src"], v["dlen"]) for lab, b, lv in variants}
        if len(set(outs.values())) > 1:
            v["outcomes"] = {k: x[:300] for k, x in outs.items()}
            v["got"] = "; ".join(f"{k}: {x[:80]}" for k, x in outs.items())
            keep.append(v)
        else:
            c.note(deviations_equal_in_all_variants=1)
    c.viol = keep


def C14(c):
    """Same results at every level; announcements, executed instructions and native execution."""
    tables = c.tables(M_ALL)
    iso = c.pool.submit(c.tlc, "Isa")
    lv = cpu_levels()
    c.build()
    traces = []
    fs = []
    # and two CPUs in between: later features without SSSE3, AVX without AVX2
    for l in lv + ["sse3", "avx"]:
        t = c.path(f"isa-{l}.ndjson")
        traces.append(t)
        fs.append(c.pool.submit(c.run_driver, c.build(), ["isa", "--spec", tables, "--level", l, "--step", "--trace", t,
                                                         "--per", "6" if c.quick else "60"], f"isa-{l}", 840, None, dict(build="release", level=l)))
    c.lockstep(tables, ALL_OPS, ["lengths", "corrupt", "edges", "random", "under", "large"], kinds=["result", "panic", "short", "spanic"],
               scale="small" if c.quick else "thorough", limit=40)
    confirm_differs(c, [(l, c.build(), l) for l in lv])
    for f in fs:
        r = f.result()
        if r:
            c.note(stepped_calls=r["calls"], stepped_instructions=r["steps"], hooked=r["hooked"])
    c.note(isa_events=c.validate([t for t in traces if os.path.exists(t)], module="IsaTrace", context="instruction sets"))
    iso.result()


RACE_OPS = ["b64std.encode", "b64std.decode", "b64url.check", "forgiving.decode", "b32.encode", "b32hex.decode", "b32.check", "hexlo.encode",
            "hex.decode", "hex.check", "uuid.parse_simple", "uuid.parse_hyphenated", "uuid.format_simple_lo", "uuid.format_hyphen_lo",
            "unicode.is_ascii", "unicode.is_utf32le", "unicode.swap16", "unicode.swap32"]


def C15(c):
    """Racing first calls: model of the selection protocol, schedules replayed, interpreter runs."""
    mset = c.pool.submit(c.miri_setup)
    mc = c.pool.submit(c.tlc, "Dispatch")
    # the model must tell wrong protocols from right ones
    wrong = [c.pool.submit(c.tlc, "Dispatch", cfg="Dispatch_" + x, expect=False) for x in ("flag", "early")]
    tables = c.tables(M_ALL)
    sj = c.path("schedules.ndjson")
    c.tlc("DispatchGen", env={"OUT": sj}, workers=1)
    sched = [" ".join(json.loads(l)) for l in open(sj)]
    sp = c.path("schedules.txt")
    open(sp, "w").write("\n".join(sched))
    cases = c.cases(tables, ALL_OPS, [48, 130], 2)
    stormy = c.cases(tables, ALL_OPS, [5, 16, 48, 130], 3, name="storm-cases", seed=c.seed + 5)
    small = c.cases(tables, RACE_OPS, [40], 1, name="race-cases")
    fs, traces = [], []
    for l in ["native", "sse4.1"] if c.quick else ["native"] + cpu_levels():
        for part in range(4):
            t = c.path(f"race-{l}-{part}.ndjson")
            traces.append(t)
            fs.append(c.pool.submit(c.run_driver, c.build(), ["race", "--cases", cases, "--schedules", sp, "--level", l, "--part", str(part), "--parts", "4",
                                    "--per", "12" if c.quick else "500", "--free", "600" if c.quick else "20000", "--trace", t,
                                    "--rec-every", "8" if c.quick else "100"], f"race-{l}-{part}", 840, None, dict(build="release", level=l)))
    for f in fs:
        r = f.result()
        if r:
            c.traces += r["trials"]
            c.note(trials=r["trials"], racing_calls=r["calls"])
    c.note(schedules=len(sched), schedule_events=c.validate([t for t in traces if os.path.exists(t)], module="DispatchTrace", context="racing first calls"))
    mset.result()
    seeds = 16 if c.quick else 200
    c.miri("x86_64-unknown-linux-gnu", ["race-miri", "--cases", small], "miri", flags=f"-Zmiri-many-seeds=0..{seeds}")
    c.note(interpreter_schedules=seeds)
    # threads need processors of their own here: two drivers of four threads at a time, nothing beside them
    mc.result()
    two = futures.ThreadPoolExecutor(2)
    fs = []
    for i, l in enumerate(["native", "fallback", "ssse3", "native"] if c.quick else 2 * (["native"] + cpu_levels())):
        fs.append(two.submit(c.run_driver, c.build(), ["race", "--cases", stormy, "--schedules", sp, "--level", l, "--part", str(i), "--parts", "4" if c.quick else "12",
                             "--per", "0", "--free", "0", "--storms", "1200" if c.quick else "4000", "--rounds", "4000" if c.quick else "10000", "--threads", str(3 + i % 2)],
                             f"storm-{i}-{l}", 840, None, dict(build="release", level=l)))
    for f in fs:
        r = f.result()
        if r:
            c.traces += r["trials"]
            c.note(storms=r["trials"], storm_calls=r["calls"])
    for w in wrong:
        if w.result()[0]:
            raise ToolError("the model accepts a wrong protocol")
    c.samples.append(sched[0])


def C16(c):
    # interpreter: uninitialised reads, misaligned accesses, invalid pointers, with the code of several instruction sets
    X86 = "x86_64-unknown-linux-gnu"
    flavours = ["+sse4.1", "+avx2"] if c.quick else ["", "+ssse3", "+sse4.1", "+avx2"]
    sysroot = c.pool.submit(c.miri_setup, X86)
    tables = c.tables(M_ALL)
    lens, per = ([24, 47], 1) if c.quick else ([0, 5, 16, 24, 33, 47, 64, 96, 131], 1)
    # the interpreter knows no inline assembly, which decoding with AVX2 contains
    asm = [o for o in ALL_OPS if any(x in o for x in ("dec", "check", "forgiving", "to_vec", "parse"))]
    todo = {f: c.cases(tables, [o for o in ALL_OPS if f != "+avx2" or o not in asm], lens, per, name="interpreted" + f) for f in flavours}

    def interpret(f, part, parts):
        tag = f[1:] or "sse2"
        a = ["replay", "--cases", todo[f], "--trace", c.path(f"ub-{tag}-{part}.ndjson"), "--label", tag, "--every", "1000000", "--part", str(part), "--parts", str(parts),
             "--level", "native", "--progress", "--out", c.path(f"ub-{tag}-{part}.json")]
        try:
            c.miri(X86 + f, a, f"miri-{tag}", flags="-Zmiri-disable-stacked-borrows")
        except ToolError as e:
            if "unsupported operation" not in str(e):
                raise
            c.note(beyond_the_interpreter=[tag + ": " + str(e)[:160]])
    f = c.pool.submit(c.build, "checked", profile="checked")
    k = ["memory", "panic", "spanic"]
    laws = c.laws(["dec_hex", "ascii", "utf32", "enc_b32np"])
    c.lockstep(tables, ALL_OPS, ["short", "lengths", "place", "under", "corrupt", "edges", "random", "large"], kinds=k,
               builds=[("release", lambda: c.build(), cpu_levels(), "small" if c.quick else "quick"),
                       ("checked", lambda: f.result(), cpu_levels(), "tiny" if c.quick else "small")])
    if not c.quick:
        c.lockstep(tables, ALL_OPS, ["short", "lengths", "place", "under"], kinds=k, tag="-deep", builds=[("release", lambda: c.build(), ["native", "ssse3"], "thorough")])
    for l in laws:
        l.result()
    sysroot.result()
    for r in [c.pool.submit(c.miri_setup, X86 + f) for f in flavours]:
        r.result()
    parts = 4 if c.quick else 8
    for r in [c.pool.submit(interpret, f, i, parts) for f in flavours for i in range(parts)]:
        r.result()
    c.note(interpreted_cases=sum(sum(1 for _ in open(p)) for p in todo.values()), interpreted=["x86_64" + f for f in flavours])


def C17(c):
    o = ops(B64 + B32, ["decode", "decode_inplace"]) + ["hex.decode", "hex.decode_raw", "hex.decode_inplace", "hex.decode_raw_inplace",
                                                         "forgiving.decode", "forgiving.decode_inplace"]
    simple(c, ["dec_" + x for x in B64 + B32] + ["dec_hex", "forgiving"], o, ALLFAM + ["place"], ["result", "panic", "prefix", "memory"],
           confirm="copy", record=None)
    cs = ["b64std", "b32", "hex", "forgiving"] + ([] if c.quick else B64[1:] + B32[1:])
    t = c.tables(["dec_" + x for x in B64 + B32] + ["dec_hex", "forgiving"])
    giants_against(c, t, [(x + ".decode_inplace", x + ".decode") for x in cs], ["native"] if c.quick else ["native", "fallback"])


def C19(c):
    o = ops(B64 + B32 + HEX, ["encode", "encode_as_str"]) + ops(B64 + B32 + ["hex"], ["decode"]) + ["forgiving.decode"]
    simple(c, ["enc_" + x for x in B64 + B32 + HEX] + ["dec_" + x for x in B64 + B32] + ["dec_hex", "forgiving"], o,
           ["short", "lengths", "under", "corrupt", "random", "large"], ["result", "panic", "prefix", "short", "spanic", "excess"], confirm="larger", record=None,
           giant=(["b64std.encode", "b32.encode", "hexlo.encode", "b64std.decode", "b32.decode", "hex.decode"] if c.quick
                  else ops(B64 + B32 + HEX, ["encode"]) + ops(B64 + B32 + ["hex"], ["decode"]), (), ["short"]))


def C20(c):
    """Parallel encoding: every schedule of a small instance in the model; pools of many sizes in the code."""
    mc = c.pool.submit(c.tlc, "Par", workers=4)
    big = None if c.quick else c.pool.submit(c.tlc, "Par", cfg="Par_big", workers=8)
    tables = c.tables(["enc_" + x for x in B64])
    b = c.build("parallel", toolchain=NIGHTLY, features=["parallel"])
    pools = [[1, 2, 3], [4, 5], [6, 7], [8], [9, 12], [16, 40], [11, 17], [70], [131], [257]] if c.quick else [[p] for p in [*range(1, 34), 40, 63, 64, 65, 100, 128, 131, 255, 256, 257, 300]]
    levels = ["native", "fallback", "native", "ssse3", "native", "native", "sse4.1"]
    fs, traces = [], []
    for i, ps in enumerate(pools):
        for lv in [levels[i % 7]] if c.quick else ["native", "fallback", "ssse3"]:
            t = c.path(f"par-{i}-{lv}.ndjson")
            traces.append(t)
            fs.append(c.pool.submit(c.run_driver, b, ["par", "--spec", tables, "--level", lv, "--pools", ",".join(map(str, ps)), "--trace", t,
                                    "--rounds", "2" if c.quick else "6", "--maxk", "2" if c.quick else "4",
                                    "--big", str((3 << 20) + 5 if c.quick else (24 << 20) + 5)], f"pool-{i}-{lv}", 840, None,
                                    dict(build="parallel", level=lv)))
    for f in fs:
        r = f.result()
        if r:
            c.traces += r["calls"]
            c.note(pool_calls=r["calls"])
    c.note(pools=[str(ps) for ps in pools], events=c.validate([t for t in traces if os.path.exists(t)], module="ParTrace", context="parallel call"))
    giants_against(c, tables, [(x + ".par_encode", x + ".encode") for x in (B64[:1] if c.quick else B64)],
                   ["native"] if c.quick else ["native", "fallback"], builds=[("parallel", lambda: b)])
    mc.result()
    if big:
        big.result()
    c.samples.append(str(pools))


def C18(c):
    """Histories: the model of containers, every short history over an alphabet replayed, long random
    histories in lockstep, recorded histories validated by TLC, and a replay under Miri."""
    mh = c.pool.submit(c.tlc, "MC_History", workers=4)
    impl = c.pool.submit(c.tlc, "HistoryImpl", workers=2)
    wrong = [c.pool.submit(c.tlc, "HistoryImpl", cfg="HistoryImpl_" + x, expect=False) for x in ("early", "from0", "short")]
    gj = c.path("histories.ndjson")
    gen = c.pool.submit(c.tlc, "HistoryGen", env={"OUT": gj, "DEPTH": "3" if c.quick else "4"}, heap="8g", workers=1)
    f = c.pool.submit(c.build, "checked", profile="checked")
    tables = c.tables(M_B64 + M_B32 + M_HEX + M_UUID)
    b = c.build()
    gen.result()
    ht = c.path("histories.txt")
    hx = lambda a: bytes(a).hex() or "-"
    with open(ht, "w") as o, open(gj) as i:
        for st in json.loads(i.readline())["alphabet"]:
            o.write(f"{st['k']} {st['c']} {st['d']} {st['op'] or '-'} {hx(st['src'])} {st['n']}\n")
        o.write("--\n")
        nh = 0
        for l in i:
            o.write("|".join(f"{e['i']} {e['tag']} {hx(e['v0'])} {hx(e['s0'])}" for e in json.loads(l)) + "\n")
            nh += 1
    os.unlink(gj)
    c.note(histories_generated_by_tlc=nh)
    fs, traces = [], []
    for name, binary, lvs in [("release", b, cpu_levels()), ("checked", f.result(), ["native", "fallback"])]:
        for lv in lvs:
            ctx = dict(build=name, level=lv)
            fs.append(c.pool.submit(c.run_driver, binary, ["history", "--spec", tables, "--level", lv, "--replay", ht], f"gen-{name}-{lv}", 840, None, ctx))
            fs.append(c.pool.submit(c.run_driver, binary, ["history", "--spec", tables, "--level", lv, "--histories", "12000" if c.quick else "300000", "--length", "40",
                                    "--part", str(len(fs))], f"long-{name}-{lv}", 840, None, ctx))
            t = c.path(f"hist-{name}-{lv}.ndjson")
            traces.append(t)
            fs.append(c.pool.submit(c.run_driver, binary, ["history", "--spec", tables, "--level", lv, "--histories", "12" if c.quick else "100", "--length", "25", "--max", "90",
                                    "--trace", t, "--part", str(len(fs))], f"rec-{name}-{lv}", 840, None, ctx))
    per = {}
    for x in fs:
        r = x.result()
        if r:
            c.traces += r["calls"]
            c.note(steps=r["calls"], histories=r["histories"], failing_steps=r["failures"])
            for k, n in r["per_op"].items():
                per[k] = per.get(k, 0) + n
    miss = [o for o in ops(B64 + B32, ["enc_append_vec", "enc_append_string", "dec_append_vec"]) if not per.get(o)]
    if miss and not c.viol:
        raise ToolError(f"never exercised: {miss}")
    big = [(x + "." + y, x + "." + y[:3].replace("enc", "encode").replace("dec", "decode")) for x in B64 + B32 + ["hexlo", "hexup", "hex"]
           for y in (["dec_append_vec"] if x == "hex" else ["enc_append_vec", "enc_append_string"] + ([] if x in HEX else ["dec_append_vec"]))]
    giants_against(c, tables, [big[0], big[-1]] if c.quick else big, ["native"] if c.quick else ["native", "fallback"])
    c.note(operations=len(per), history_events=c.validate([t for t in traces if os.path.exists(t)], module="HistoryTrace", context="history"))
    mh.result(), impl.result()
    for w in wrong:
        if w.result()[0]:
            raise ToolError("the model accepts a wrong implementation")
    c.samples.append(json.dumps(per)[:600])


def C21(c):
    """The lane primitives: the laws of the specification, every primitive of every offered instruction
    set in lockstep with the tables, sampled calls evaluated by TLC."""
    laws = [c.pool.submit(c.tlc, "LaneLaws", cfg="LaneLaws_" + x) for x in ("2_4", "4_2", "4_3", "16_2")]
    S = " -C target-feature="
    B = {"release": c.pool.submit(c.build, "lanes", crate="lanes", binary="lanes")}
    B["checked"] = c.pool.submit(c.build, "lanes-checked", crate="lanes", binary="lanes", profile="checked")
    B["wasm"] = c.pool.submit(c.build_wasm, "lanes-wasm", HOOK + S + "+simd128", "lanes", "laneswasm", ["--lib"])
    B["i686"] = c.pool.submit(c.build_i686, "lanes-i686", crate="lanes", binary="lanes", more=["--bin", "lanes"])
    if not c.quick:
        B["avx2"] = c.pool.submit(c.build, "lanes-avx2", crate="lanes", binary="lanes", rustflags=HOOK + S + "+avx2")
        B["unstable"] = c.pool.submit(c.build, "lanes-unstable", crate="lanes", binary="lanes", toolchain=NIGHTLY, features=["unstable"])
    neon = c.pool.submit(c.miri_setup, NEON, "lanes")
    text, n = c.lane_tables()
    c.note(primitives_specified=n)
    B = {k: f.result() for k, f in B.items()}
    jobs = []
    for k, b in B.items():
        if b is None:
            c.note(builds_not_possible_here=[k])
            continue
        scale = {True: 1 if k == "release" else 0, False: 2 if k in ("release", "wasm", "avx2") else 1}[c.quick]
        per = (2 if k == "release" else 1) if c.quick else 12
        parts = 8 if k == "release" or not c.quick else 3
        jobs += [(k, c.pool.submit(c.lanes, b, text, k, scale, per, i, parts)) for i in range(parts)]
    neon.result()
    jobs += [("neon", c.pool.submit(c.lanes_elsewhere, B["release"], text, "neon", NEON, "neon", i, 8, 1 if c.quick else 12)) for i in range(8)]
    tr = {}
    for k, f in jobs:
        r, t = f.result()
        if r:
            if r["absent"] and k != "wasm":
                raise ToolError("primitives of the specification missing from the driver")
            c.note(lane_calls=r["calls"], vectors=r["vectors"], implementations=r["implementations"])
            tr.setdefault(k, []).append(t)
    fs = [c.pool.submit(c.validate, [t], module="LaneTrace", context="primitive") for ts in tr.values() for t in ts]
    c.note(primitive_events=sum(f.result() for f in fs))
    for l in laws:
        l.result()
    c.samples.append("builds " + " ".join(tr))


def C22(c):
    """Every build gives every call the same outcome: lockstep in many builds, replay in all of them,
    observations merged and validated by TLC (AgreeTrace)."""
    ag = c.pool.submit(c.tlc, "Agree")
    sub = c.pool.submit
    S = " -C target-feature="
    nodet = dict(default_features=False)
    B = {"release": sub(c.build)}
    B["i686"] = sub(c.build_i686)
    B["wasm"] = sub(c.build_wasm, "wasm", HOOK)
    B["wasm-simd128"] = sub(c.build_wasm, "wasm-simd128", HOOK + S + "+simd128")
    mset = {t: sub(c.miri_setup, t) for t in (["s390x-unknown-linux-gnu", NEON] if c.quick else ["s390x-unknown-linux-gnu", NEON, "i686-unknown-linux-gnu"])}
    B["static"] = sub(c.build, "static", **nodet)
    B["static-ssse3"] = sub(c.build, "static-ssse3", rustflags=HOOK + S + "+ssse3", **nodet)
    B["static-sse41"] = sub(c.build, "static-sse41", rustflags=HOOK + S + "+sse4.1", **nodet)
    B["static-avx2"] = sub(c.build, "static-avx2", rustflags=HOOK + S + "+avx2", **nodet)
    B["detect-avx2"] = sub(c.build, "detect-avx2", rustflags=HOOK + S + "+avx2")
    B["checked"] = sub(c.build, "checked", profile="checked")
    B["dev"] = sub(c.build, "dev", profile="dev")
    B["unstable"] = sub(c.build, "unstable", toolchain=NIGHTLY, features=["unstable"])
    if not c.quick:
        B["unstable-avx2"] = sub(c.build, "unstable-avx2", toolchain=NIGHTLY, features=["unstable"], rustflags=HOOK + S + "+avx2", **nodet)
        B["nohook"] = sub(c.build, "nohook", rustflags="")
        B["fat"] = sub(c.build, "fat", profile="fat")
        B["size"] = sub(c.build, "size", profile="size")
        B["i686-static"] = sub(c.build_i686, "i686-static", HOOK + S + "+avx2")
        B["i686-checked"] = sub(c.build_i686, "i686-checked", HOOK, "checked")
        B["static-native"] = sub(c.build, "static-native", rustflags=HOOK + " -C target-cpu=native", **nodet)
    tables = c.tables(M_ALL)
    lens = [0, 1, 2, 3, 4, 5, 7, 8, 10, 13, 15, 16, 17, 20, 24, 28, 31, 32, 33, 36, 40, 48, 63, 64, 65, 72, 80, 96, 100, 128, 130, 192, 200, 257]
    cases = c.cases(tables, ALL_OPS, lens if c.quick else sorted(set(lens) | set(range(0, 140)) | {400, 512, 1000}), 4 if c.quick else 12)
    ncases = sum(1 for _ in open(cases))
    every = max(1, ncases // 700)
    small = c.cases(tables, ALL_OPS, [9, 24, 33, 47] if c.quick else [0, 1, 5, 16, 24, 33, 40, 47, 64, 96, 131], 1 if c.quick else 2, name="small", seed=c.seed + 9)
    B = {k: f.result() for k, f in B.items()}
    cpu = cpu_levels()
    obs, variants = [], [("release", B["release"], "native")]
    for k, b in B.items():
        if b is None:
            c.note(builds_not_possible_here=[k])
            continue
        obs.append(sub(c.replay, b, cases, k, every=every))
        if not b.endswith(".wasm"):
            variants.append((k, b, "native"))
            if k == "release":
                lv = ["native"]
            elif c.quick:
                lv = ["native"] + (["fallback", "sse2", "ssse3"] if k == "i686" else ["fallback"] if k in ("unstable", "dev") else [])
            else:
                lv = ["native"] + ([] if "static" in k else cpu)
            lv = [x for x in lv if x == "native" or x in cpu]
            sc = "tiny" if c.quick or k in ("dev", "i686-checked") else "quick"
            c.lockstep(tables, ALL_OPS, ["lengths", "corrupt", "edges", "random", "under", "large"],
                       builds=[(k, lambda b=b: b, lv, sc)], kinds=["result", "panic", "short", "spanic"], limit=40, tag="-" + k) if k != "release" else None
    parts = 6
    for t, f in mset.items():
        f.result()
        obs += [sub(c.replay, None, small, t.split("-")[0], miri=t, part=i, parts=parts) for i in range(parts)]
    big, sm = [], []
    for f in obs:
        t = f.result()
        if t:
            (sm if any(os.path.basename(t).startswith("obs-" + m.split("-")[0]) and m in mset for m in mset) else big).append(t)
    sm.append(c.replay(B["release"], small, "release-small"))
    c.note(cases=ncases)
    c.note(agreement_events=c.validate(big, module="AgreeTrace", context="builds disagree"))
    c.note(agreement_events=c.validate([x for x in sm if x], module="AgreeTrace", context="builds disagree"))
    # a deviation all builds share is not a matter of building
    keep = []
    for v in c.viol:
        if v["kind"] in ("trace", "miri") or v.get("op") in (None, "?") or v.get("src_len", 0) > 1 << 20:
            keep.append(v)
            continue
        ref = c.one(B["release"], "native", v["op"], v["src"], v["dlen"])
        mine = next((c.one(b, v.get("level", "native"), v["op"], v["src"], v["dlen"]) for k, b, _ in variants if k == v.get("build")), v["got"])
        if ref != mine:
            v["outcomes"] = dict(release=ref[:300], here=mine[:300])
            keep.append(v)
        else:
            c.note(deviations_equal_in_all_builds=1)
    c.viol = keep
    ag.result()


def main():
    pid = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = Check(pid, tier if tier in ("quick", "thorough") else "quick", seed)
    try:
        globals()[pid](c)
    except ToolError as e:
        print(f"check error: {e}")
        return c.finish() if c.viol else 2
    except Exception:
        traceback.print_exc()
        return c.finish() if c.viol else 2
    return c.finish()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
