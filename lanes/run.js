// node run.js module.wasm spec.txt out.json trace.ndjson crash scale seed per part parts
"use strict";
const fs = require("fs");
const [wasm, spec, out, trace, crash, ...n] = process.argv.slice(2);
const ex = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(wasm)), {}).exports;
const b = fs.readFileSync(spec);
const p = ex.room(b.length);
new Uint8Array(ex.memory.buffer, p, b.length).set(b);
const take = () => Buffer.from(new Uint8Array(ex.memory.buffer, ex.result(), ex.result_len()));
try {
  ex.go(...n.map(Number));
} catch (e) {
  fs.writeFileSync(crash, Buffer.concat([take(), Buffer.from("\n" + e.message)]));
  process.exit(78);
}
const r = take();
const k = r.indexOf(10);
fs.writeFileSync(out, r.subarray(0, k));
fs.writeFileSync(trace, r.subarray(k + 1));
