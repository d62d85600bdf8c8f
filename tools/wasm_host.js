// Same protocol as the native driver, served by the wasm32 build of the library
"use strict";
const fs = require("fs");
const bytes = fs.readFileSync(process.argv[2]);
const FBW = 5896;
let ex;
function load() {
  const m = new WebAssembly.Module(bytes);
  ex = new WebAssembly.Instance(m, {}).exports;
}
load();
const fb = () => new Uint32Array(ex.memory.buffer, ex.fb_ptr(), FBW);
const cur = () => new Uint32Array(ex.memory.buffer, ex.cur_ptr(), 3);
function hash(f) {
  let a = 0x811c9dc5 | 0, b = 0;
  for (let i = 0; i < FBW; i++) {
    const w = f[i] | 0;
    a = Math.imul(a ^ w, 0x01000193);
    b ^= Math.imul(w, 0x9e3779b1);
    b = (b << 13) | (b >>> 19);
    b = (Math.imul(b, 5) + 0xe6546b64) | 0;
  }
  return (a >>> 0) + " " + (b >>> 0);
}
function handle(line) {
  const p = line.split(" ");
  const n = (i) => Number(p[i]);
  let c = "0 0 0";
  switch (p[0]) {
    case "F": { const f = fb(); for (let i = 0; i < FBW; i++) f[i] = parseInt(p[1].substr(i * 8, 8), 16); break; }
    case "Z": fb().fill(0); break;
    case "P": {
      cur().set([n(5), n(6), n(7)]);
      const t = Buffer.from(p[9], "hex");
      new Uint8Array(ex.memory.buffer, ex.text_ptr(), t.length).set(t);
      ex.paint(n(1), n(2), n(3), n(4), n(8), t.length);
      c = Array.from(cur()).join(" ");
      break;
    }
    case "C": ex.clear(n(1), n(2), n(3), n(4)); break;
    case "G": ex.demo(n(1)); break;
    case "D": return Array.from(fb(), (w) => w.toString(16).padStart(8, "0")).join("");
    default: throw new Error("unknown request " + p[0]);
  }
  return c + " " + hash(fb());
}
const chunk = Buffer.alloc(1 << 16);
let buf = "";
for (;;) {
  let k;
  try { k = fs.readSync(0, chunk, 0, chunk.length, null); } catch (e) { if (e.code === "EAGAIN") continue; if (e.code === "EOF") break; throw e; }
  if (k === 0) break;
  buf += chunk.toString("latin1", 0, k);
  let i;
  while ((i = buf.indexOf("\n")) >= 0) {
    const line = buf.slice(0, i);
    buf = buf.slice(i + 1);
    let r;
    try { r = handle(line); } catch (e) {
      if (!(e instanceof WebAssembly.RuntimeError)) throw e;
      r = "T " + String(e.message).replace(/\n/g, " ");
      load();
    }
    fs.writeSync(1, r + "\n");
  }
}
