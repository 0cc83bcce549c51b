#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = ("TLA+ machines (spec/Machines.tla, Api.tla) model-checked by TLC against the declarative definition; every transition table TLC derives is run in "
     "lockstep with the real operations at every x86 instruction-set level; recorded calls are validated by TLC against the declarative definition")
T = {
 "C01": (L, "Machine = RFC 4648 definition checked by TLC for all words up to the bound of MachineEquiv and by inductive laws beyond; code bound by lockstep on millions of words per level covering every transition, all lengths to 330 (quick) / 1200 (thorough) and large buffers. Input classes beyond are sampled."),
 "C02": (L, "As C01, for the decoders: all single-byte corruptions at many lengths and positions, padding and trailing-bit boundaries."),
 "C03": (L, "As C02, for the WHATWG algorithm including white space at every position."),
 "C04": (L, "As C01, for Base32."),
 "C05": (L, "As C02, for Base32."),
 "C06": (L, "As C01/C02, for hex."),
 "C07": (L, "Checks, decoded lengths and decoding follow one machine; verdicts and lengths compared on every explored text."),
 "C08": ("length laws in TLA+ (spec/Lengths.tla), proved for all naturals by Apalache and re-checked by TLC; the closed form they justify is evaluated against the code at the edges and throughout the machine-word range",
         "Unbounded for the laws; the code is sampled at every power of two, quotient boundary and millions of random words."),
 "C09": (L, "As C02, for UUID texts: every byte value at every position of every form."),
 "C10": (L, "As C01, for UUID formatting; the round trip is a law of the machines."),
 "C11": (L, "As C01; every placement and alignment, one offending byte at every position."),
 "C12": (L, "As C01; all boundary code points at every position, placements."),
 "C13": (L, "As C01; every unit position, placement and destination length, excess bytes and canaries watched."),
 "C14": ("TLA+ model of instruction sets and selection (spec/Isa.tla) checked by TLC; recorded announcements, single-stepped instruction classes and native executions validated by TLC (IsaTrace); lockstep of all operations at every level",
         "Levels are simulated by vetoing feature queries (hook). Instruction classes are those of the paths the explored inputs take."),
 "C15": ("TLA+ model of run-time selection under relaxed memory (spec/Dispatch.tla) checked by TLC; its schedules replayed into forked processes through the feature-query hook, observations validated by TLC (DispatchTrace); interpreter (Miri) schedules of the same calls",
         "Model: 3 threads x 2 calls, all interleavings and relaxed reads. Code: every schedule class of 3 threads, free races, and weak-memory executions of Miri."),
 "C16": ("operations driven from the TLA+ machines' words with buffers against inaccessible pages, canaries and a guarded heap; TLC-derived outcome decides documented panics; lockstep at every level",
         "Any access outside a mapped page or modified byte outside the destination is seen; reads inside the same page but outside the source are seen only at page edges and under Miri (thorough)."),
 "C17": (L, "In-place and copying forms follow one machine; a deviation is reported when the two differ."),
 "C19": (L, "Every destination length 0..need+70 for lengths to 200 (quick), policy from spec/Api.tla."),
 "C20": ("TLA+ model of chunked parallel encoding (spec/Par.tla) checked by TLC over all schedules and pool sizes of small instances; recorded calls under pools of 1..17 threads validated by TLC (ParTrace) and compared with the encoder machines",
         "Model: every interleaving for small lengths and pools. Code: pools 1-17 (quick) / 1-33 (thorough), lengths around every multiple of the pool's chunking; schedules of the code are the operating system's."),
 "C18": ("TLA+ model of a container over histories (spec/History.tla) and of the code's reserve/write/set-length protocol refining it (spec/HistoryImpl.tla, checked by TLC with refuted variants); TLC-generated histories are replayed into the real containers under a watching heap, and long recorded histories are validated by TLC (HistoryTrace)",
         "Model: all histories to the bound of MC_History. Code: generated behaviours of the model, random long histories over every appending and owned form, several capacities, at several instruction-set levels."),
 "C21": ("TLA+ definitions of every lane primitive (spec/Lanes.tla, LaneOps.tla) with model-checked laws (LaneLaws: multi-byte limb automata equal integer arithmetic); byte-level tables TLC derives from them are run in lockstep with the real primitives of every instruction set, and sampled calls are evaluated by TLC (LaneTrace)",
         "8-bit lanes: every byte pair in every lane position. Wider lanes: the byte-limb automata are checked against integers in TLA+ for small bases and 8-bit limbs of 16-bit lanes, the code on sampled and edge values. x86 (SSE2, SSSE3, SSE4.1, AVX2), i686 and WebAssembly SIMD; NEON cannot be executed here."),
 "C22": ("TLA+ specification of the operations evaluated once (spec/Agree.tla); observations of the same calls made by many builds (profiles, static features, 32-bit, big-endian, WebAssembly, unstable) are merged and validated by TLC against the specification and against each other",
         "Builds: release, debug, checked, static baselines, AVX2, i686, wasm with and without simd128, nightly portable SIMD, big-endian under Miri. Inputs: machine words, boundary classes, exhaustive 32-bit lengths on 32-bit builds (thorough)."),
}
N = {
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1,
  setup_cmd="python3 -c 'import vlib, check'",
  hooks=dict(guard="cfg(vsimd_verif)", enable='RUSTFLAGS="--cfg vsimd_verif" (set by vlib.py for every build of the driver)', source_commits=["a747ef7"]),
  checks=[dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --tier thorough", evidence_file=f"evidence/{p}.json",
               technique=T[p][0], level="model_checking", level_note=T[p][1]) for p in props if p in T],
  not_applicable=[dict(property=p, reason=N.get(p, "check not built yet")) for p in props if p not in T],
  notes="Specification language: TLA+ (TLC, Apalache). See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
