// node run.js module.wasm cases.txt out.json [trace.ndjson build every]
"use strict";
const fs = require("fs");
const [wasm, cases, out, trace, build, every] = process.argv.slice(2);
const mod = new WebAssembly.Module(fs.readFileSync(wasm));
let ex;
function fresh() {
  ex = new WebAssembly.Instance(mod, {}).exports;
  return ex.start();
}
const nops = fresh();
const enc = new TextEncoder(), dec = new TextDecoder();
let calls = 0;
const bad = [], tr = [];
const lines = fs.readFileSync(cases, "latin1").split("\n").filter((l) => l);
lines.forEach((line, i) => {
  const [op, dlen, src, want] = line.split(" ");
  let got;
  try {
    const b = enc.encode(`${op} ${dlen} ${src}`);
    const p = ex.room(b.length);
    new Uint8Array(ex.memory.buffer, p, b.length).set(b);
    const n = ex.call();
    got = dec.decode(new Uint8Array(ex.memory.buffer, ex.result(), n));
  } catch (e) {
    let p = false;
    try { p = ex.panicked() === 1; } catch (_) {}
    got = p ? "panic" : "trap: " + e.message;
    fresh();
  }
  if (got === "absent") return;
  calls++;
  if (want !== "-" && got !== want && bad.length < 12)
    bad.push({ kind: "result", op, src: src === "-" ? "" : src, dlen: +dlen, what: "wrong result", expected: want, got });
  if (trace && i % +every === 0) tr.push(JSON.stringify({ b: build, c: i, o: got }));
});
if (trace) fs.writeFileSync(trace, tr.map((l) => l + "\n").join(""));
fs.writeFileSync(out, JSON.stringify({ calls, ops: nops, violations: bad }));
