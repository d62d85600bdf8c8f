// C30: the committed demo.wasm and the module built from wasm_demo, side by
// side through the same generated history of calls and memory contents.
// Usage: node module_check.mjs REPO TIER SEED OUTDIR WASM DEMO_HEX [REPLAY]
import fs from "fs";
import path from "path";
import { createRequire } from "module";
const require = createRequire("/opt/veriftools/node/node_modules/");
const fc = require("fast-check");

const [repo, tier, seedArg, outDir, wasmFile, demoFile, replayFile] = process.argv.slice(2);
const seed = Number(BigInt(seedArg) & 0x7fffffffn);
const started = process.hrtime.bigint();
const W = 336, H = 536, WPL = 11, WORDS = WPL * H;
class Fail extends Error {}

const hex = fs.readFileSync(demoFile, "utf8").trim();
const want = new Uint32Array(WORDS);
for (let i = 0; i < WORDS; i++) want[i] = parseInt(hex.substr(i * 8, 8), 16);
function compile(name, file) {
  try {
    return { name, module: new WebAssembly.Module(fs.readFileSync(file)) };
  } catch (e) {
    return { name, bad: "is no WebAssembly module: " + e.message };
  }
}
const modules = [compile("the committed demo.wasm", path.join(repo, "wasm_demo/demo.wasm")), compile("the module built from wasm_demo", wasmFile)];

function rng(s) {
  let a = (s ^ 0x9e3779b9) >>> 0;
  return () => {
    a = (a + 0x6d2b79f5) >>> 0;
    let t = a;
    t = Math.imul(t ^ (t >>> 15), t | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return (t ^ (t >>> 14)) >>> 0;
  };
}
function fill(words, op) {
  const r = rng(op.seed);
  for (let i = 0; i < words.length; i++) {
    if (op.kind === "zeros") words[i] = 0;
    else if (op.kind === "ones") words[i] = 0xffffffff;
    else if (op.kind === "noise") words[i] = r();
    else if (op.kind === "padding") words[i] = i % WPL === WPL - 1 ? r() & 0xffff0000 : r();
    else if (r() % 50 === 0) words[i] ^= 1 << (r() & 31);
  }
}

function start(m) {
  if (m.bad) throw new Fail(m.name + " " + m.bad);
  // What the page gives it
  const imports = {};
  for (const i of WebAssembly.Module.imports(m.module)) {
    if (i.module !== "js" || i.name !== "js_log_trace") throw new Fail(`${m.name} wants ${i.module}.${i.name}, which the page does not give it`);
    (imports.js ??= {}).js_log_trace = () => {};
  }
  let e;
  try {
    e = new WebAssembly.Instance(m.module, imports).exports;
  } catch (x) {
    throw new Fail(m.name + " cannot be instantiated: " + x.message);
  }
  for (const n of ["init", "frame_buf_ptr"]) if (typeof e[n] !== "function") throw new Fail(`${m.name} has no ${n}()`);
  return { name: m.name, e, at: -1 };
}
function call(s, f) {
  try {
    return s.e[f]();
  } catch (x) {
    throw new Fail(`${f}() of ${s.name} trapped: ${x.message}`);
  }
}
function buffer(s) {
  const at = call(s, "frame_buf_ptr") >>> 0;
  if (s.at >= 0 && s.at !== at) throw new Fail(`the frame buffer of ${s.name} moved from ${s.at} to ${at}`);
  s.at = at;
  const all = s.e.memory.buffer;
  if (at % 4 !== 0 || at + WORDS * 4 > all.byteLength) throw new Fail(`the frame buffer of ${s.name} is at ${at} in ${all.byteLength} bytes`);
  return new Uint32Array(all, at, WORDS);
}
/// Memory that belongs to nobody: what the page has added at the end
function extra(s) {
  return new Uint32Array(s.e.memory.buffer, s.first);
}

function judgeCase(c) {
  let inits = 0, filled = 0;
  const live = modules.map((m) => start(m));
  for (const s of live) {
    s.first = s.e.memory.buffer.byteLength;
    for (const op of c) {
      if (op.do === "fill") {
        fill(buffer(s), op);
        filled++;
      } else if (op.do === "grow") {
        try { s.e.memory.grow(op.pages); } catch { continue; }
        fill(extra(s), op);
      } else {
        const before = Uint32Array.from(buffer(s));
        const mem = Uint32Array.from(extra(s));
        call(s, "init");
        inits++;
        const fb = buffer(s);
        for (let i = 0; i < WORDS; i++) {
          const visible = i % WPL === WPL - 1 ? 0x0000ffff : 0xffffffff;
          const d = (fb[i] ^ want[i]) & visible;
          if (d !== 0) throw new Fail(`init() of ${s.name}: pixel x=${(i % WPL) * 32 + 31 - Math.clz32(d & -d)} y=${Math.floor(i / WPL)} is not as painted natively`);
          if (((fb[i] ^ before[i]) & ~visible) !== 0) throw new Fail(`init() of ${s.name} changed the hidden padding of line ${Math.floor(i / WPL)}`);
        }
        const now = extra(s);
        for (let i = 0; i < mem.length; i++) if (mem[i] !== now[i]) throw new Fail(`init() of ${s.name} changed memory past its end, word ${i}`);
      }
    }
  }
  return inits > 2 && filled > 0;
}

const kind = fc.constantFrom("zeros", "ones", "noise", "noise", "padding", "some");
const history = fc.array(fc.oneof(
  { weight: 3, arbitrary: fc.record({ do: fc.constant("fill"), kind, seed: fc.nat(0x7fffffff) }) },
  { weight: 1, arbitrary: fc.record({ do: fc.constant("grow"), kind, seed: fc.nat(0x7fffffff), pages: fc.integer({ min: 1, max: 4 }) }) },
  { weight: 3, arbitrary: fc.record({ do: fc.constant("init") }) },
), { minLength: 1, maxLength: 8 });

const stats = { evaluations: 0, seen: new Set(), phases: { histories: 0 }, samples: [] };
let failure = null;
function judge(c, count) {
  const nontrivial = judgeCase(c);
  if (!count) return;
  stats.evaluations++;
  stats.phases.histories++;
  if (nontrivial) {
    const j = JSON.stringify(c);
    if (!stats.seen.has(j)) {
      stats.seen.add(j);
      if ([3, 20, 100].includes(stats.seen.size)) stats.samples.push({ phase: "histories", case: c });
    }
  }
}
function harness(e) {
  console.error("HARNESS-ERROR", e);
  process.exit(3);
}
if (replayFile) {
  const f = JSON.parse(fs.readFileSync(replayFile, "utf8"));
  try { judge(f.case, true); } catch (e) {
    if (!(e instanceof Fail)) harness(e);
    failure = { ...f, message: e.message };
  }
} else {
  let failing = false;
  const n = tier === "thorough" ? 40000 : Math.max(1, Math.round(1500 * Number(process.env.PBT_SCALE ?? 1)));
  const r = fc.check(fc.property(history, (c) => {
    try { judge(c, !failing); } catch (e) {
      if (!(e instanceof Fail)) harness(e);
      failing = true;
      throw e;
    }
  }), { seed, numRuns: n });
  if (r.failed) {
    const c = r.counterexample[0];
    let message = "";
    try { judge(c, false); } catch (e) { message = e.message; }
    failure = { property: "C30", phase: "histories", message, case: c, profile: "web" };
  }
}
fs.writeFileSync(path.join(outDir, "hashes.bin"), "");
fs.writeFileSync(path.join(outDir, "result.json"), JSON.stringify({
  property: "C30", profile: "web", evaluations: stats.evaluations, distinct_hashed: 0, distinct_enumerated: stats.seen.size, excluded: {}, labels: {}, phases: stats.phases, samples: stats.samples, exhaustive: [], notes: [], known: [], failure,
  rule: "histories of init() calls, frame buffer contents poked by the page and memory growth, on the committed demo.wasm and on the module built from wasm_demo: after every init() the visible pixels are those of the native demo, padding and added memory unchanged; non-trivial: at least 2 calls of init() in each module, and a frame buffer filled",
  wall_s: Number(process.hrtime.bigint() - started) / 1e9,
}, null, 1));
process.exit(failure ? 1 : 0);
