// C21: runs the demo page's own scripts (unchanged, each case in a fresh context
// with a canvas, fetch and WebAssembly of ours) over generated frame buffers and
// compares every canvas pixel. Usage:
//   node --experimental-vm-modules web_check.mjs REPO TIER SEED OUTDIR WASM DEMO_HEX [REPLAY]
import fs from "fs";
import path from "path";
import vm from "vm";
import { createRequire } from "module";
import { pathToFileURL, fileURLToPath } from "url";
const require = createRequire("/opt/veriftools/node/node_modules/");
const fc = require("fast-check");

const [repo, tier, seedArg, outDir, wasmFile, demoFile, replayFile] = process.argv.slice(2);
const seed = Number(BigInt(seedArg) & 0x7fffffffn);
const started = process.hrtime.bigint();
const W = 336, H = 536, WPL = 11, WORDS = WPL * H;
const webDir = path.join(repo, "wasm_demo");

// ------------------------------------------------------------ the page
const html = fs.readFileSync(path.join(webDir, "index.html"), "utf8").replace(/<!--[\s\S]*?-->/g, "");
function attributes(s) {
  const r = {};
  for (const m of s.matchAll(/([\w-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/g)) r[m[1].toLowerCase()] = m[2] ?? m[3] ?? m[4] ?? "";
  return r;
}
const tags = [...html.matchAll(/<([a-zA-Z][\w-]*)((?:"[^"]*"|'[^']*'|[^"'>])*)>/g)].map((m) => ({ tag: m[1].toLowerCase(), attrs: attributes(m[2]) }));
const scripts = [];
for (const m of html.matchAll(/<script((?:"[^"]*"|'[^']*'|[^"'>])*)>([\s\S]*?)<\/script>/gi)) {
  const a = attributes(m[1]);
  scripts.push({ module: a.type === "module", src: a.src, text: m[2] });
}
const sources = new Map();
function source(file) {
  if (!sources.has(file)) sources.set(file, fs.readFileSync(file, "utf8"));
  return sources.get(file);
}

class Fail extends Error {}

function makePage(c, binding) {
  const log = { puts: 0, errors: [] };
  let canvas = null;
  const elements = [];
  class ImageData {
    constructor(a, b, d) {
      if (typeof a === "number") {
        this.width = a; this.height = b; this.data = new Uint8ClampedArray(a * b * 4);
      } else {
        this.data = a; this.width = b; this.height = d ?? a.length / 4 / b;
        if (this.width * this.height * 4 !== a.length) throw new Error("ImageData: wrong size");
      }
    }
  }
  function makeCanvas(el) {
    let w = Number(el.attrs.width ?? 300), h = Number(el.attrs.height ?? 150);
    let px = new Uint8ClampedArray(w * h * 4);
    const reset = () => { px = new Uint8ClampedArray(w * h * 4); };
    Object.defineProperty(el, "width", { get: () => w, set: (v) => { w = v >>> 0; reset(); } });
    Object.defineProperty(el, "height", { get: () => h, set: (v) => { h = v >>> 0; reset(); } });
    el.pixels = () => px;
    const rectOp = (x, y, rw, rh, f) => {
      for (let j = Math.max(0, y); j < Math.min(h, y + rh); j++) for (let i = Math.max(0, x); i < Math.min(w, x + rw); i++) f((j * w + i) * 4);
    };
    const ctx = {
      canvas: el, fillStyle: "#000",
      getImageData(x, y, rw, rh) {
        if (!(rw > 0) || !(rh > 0)) throw new Error("getImageData: empty");
        const d = new ImageData(rw, rh);
        for (let j = 0; j < rh; j++) for (let i = 0; i < rw; i++) {
          const cx = x + i, cy = y + j;
          if (cx >= 0 && cy >= 0 && cx < w && cy < h) for (let k = 0; k < 4; k++) d.data[(j * rw + i) * 4 + k] = px[(cy * w + cx) * 4 + k];
        }
        return d;
      },
      createImageData(a, b) { return typeof a === "number" ? new ImageData(a, b) : new ImageData(a.width, a.height); },
      putImageData(d, x, y, dx, dy, dw, dh) {
        log.puts++;
        const [x0, y0] = [dx ?? 0, dy ?? 0], [x1, y1] = [x0 + (dw ?? d.width), y0 + (dh ?? d.height)];
        for (let j = Math.max(0, y0); j < Math.min(d.height, y1); j++) for (let i = Math.max(0, x0); i < Math.min(d.width, x1); i++) {
          const cx = x + i, cy = y + j;
          if (cx >= 0 && cy >= 0 && cx < w && cy < h) for (let k = 0; k < 4; k++) px[(cy * w + cx) * 4 + k] = d.data[(j * d.width + i) * 4 + k];
        }
      },
      clearRect(x, y, rw, rh) { rectOp(x, y, rw, rh, (o) => px.fill(0, o, o + 4)); },
      fillRect(x, y, rw, rh) { log.puts++; const col = color(ctx.fillStyle); rectOp(x, y, rw, rh, (o) => px.set(col, o)); },
      save() {}, restore() {},
    };
    el.getContext = (kind) => (kind === "2d" ? ctx : null);
  }
  for (const t of tags) {
    const el = { tagName: t.tag.toUpperCase(), id: t.attrs.id ?? "", attrs: t.attrs, style: {}, classList: { add() {}, remove() {}, toggle() {} }, addEventListener() {}, removeEventListener() {}, appendChild() {}, setAttribute(k, v) { this[k] = v; }, getAttribute(k) { return t.attrs[k] ?? null; } };
    if (t.tag === "canvas") {
      makeCanvas(el);
      if (!canvas) canvas = el;
    }
    elements.push(el);
  }
  const find = (sel) => {
    const m = /^([a-zA-Z][\w-]*)?(?:#([\w-]+))?$/.exec(sel.trim());
    if (!m) throw new Error("unsupported selector " + sel);
    return elements.filter((e) => (!m[1] || e.tagName === m[1].toUpperCase()) && (!m[2] || e.id === m[2]));
  };
  const document = {
    querySelector: (s) => find(s)[0] ?? null, querySelectorAll: find, getElementById: (id) => elements.find((e) => e.id === id) ?? null,
    getElementsByTagName: (t) => elements.filter((e) => e.tagName === t.toUpperCase()),
    addEventListener(k, f) { if (k === "DOMContentLoaded" || k === "load") setImmediate(f); }, readyState: "interactive", body: {}, documentElement: {},
  };
  const response = (url) => {
    const u = new URL(String(url?.href ?? url?.url ?? url), "http://localhost:8000/");
    const ok = u.pathname === "/demo.wasm";
    return {
      ok, status: ok ? 200 : 404, url: u.href, headers: { get: (k) => (k.toLowerCase() === "content-type" ? "application/wasm" : null) },
      arrayBuffer: async () => (ok ? binding.bytes() : new ArrayBuffer(0)), clone() { return response(url); }, _ok: ok,
    };
  };
  const fetch = async (url) => response(url);
  const wasm = {
    Module: WebAssembly.Module, Memory: WebAssembly.Memory, RuntimeError: WebAssembly.RuntimeError,
    instantiate: async (bytes, imports) => binding.instantiate(bytes, imports),
    compile: async (bytes) => ({ _bytes: bytes }),
  };
  if (c.streaming) {
    wasm.instantiateStreaming = async (resp, imports) => {
      const r = await resp;
      if (!r._ok) throw new Error("404");
      return binding.instantiate(await r.arrayBuffer(), imports);
    };
    wasm.compileStreaming = async (resp) => ({ _bytes: await (await resp).arrayBuffer() });
  }
  const globals = {
    document, fetch, WebAssembly: wasm, console: { log() {}, warn() {}, error() {}, info() {}, debug() {} }, TextDecoder, TextEncoder, URL, ImageData,
    setTimeout: (f, n, ...a) => setImmediate(() => f(...a)) && 1, clearTimeout() {}, setInterval: () => 1, clearInterval() {}, queueMicrotask,
    requestAnimationFrame: (f) => setImmediate(() => f(0)) && 1, cancelAnimationFrame() {}, performance: { now: () => 0 },
    addEventListener(k, f) { if (k === "DOMContentLoaded" || k === "load") setImmediate(f); }, removeEventListener() {}, location: { href: "http://localhost:8000/", search: "", hash: "" }, navigator: { userAgent: "node" },
  };
  globals.window = globals; globals.self = globals;
  const context = vm.createContext(globals);
  // Views made by the page must be views of our buffers
  context.globalThis = context;
  return { context, log, canvas };
}

function color(s) {
  let m = /^#([0-9a-f]{3,8})$/i.exec(s);
  if (m) {
    let h = m[1];
    if (h.length <= 4) h = [...h].map((x) => x + x).join("");
    return [0, 2, 4, 6].map((i) => (i < h.length ? parseInt(h.substr(i, 2), 16) : 255));
  }
  m = /^rgba?\(([^)]*)\)$/i.exec(s);
  if (m) {
    const v = m[1].split(/[\s,/]+/).map(Number);
    return [v[0], v[1], v[2], v.length > 3 ? v[3] * 255 : 255];
  }
  if (/^(black)$/.test(s)) return [0, 0, 0, 255];
  if (s === "transparent") return [0, 0, 0, 0];
  throw new Error("unsupported colour " + s);
}

let asyncErrors = [];
process.on("unhandledRejection", (e) => asyncErrors.push(e));
process.on("uncaughtException", (e) => asyncErrors.push(e));
const ticks = async (n) => { for (let i = 0; i < n; i++) await new Promise((r) => setImmediate(r)); };

async function load(page) {
  const mods = new Map();
  const get = (file, text) => {
    if (!mods.has(file)) mods.set(file, new vm.SourceTextModule(text ?? source(file), { context: page.context, identifier: pathToFileURL(file).href, importModuleDynamically: async (s, r) => { const m = link(s, r); if (m.status === "unlinked") await m.link(link); await m.evaluate(); return m; } }));
    return mods.get(file);
  };
  const link = (spec, ref) => get(fileURLToPath(new URL(spec.replace(/[?#].*$/, ""), ref.identifier)));
  for (const [i, s] of scripts.entries()) {
    const file = s.src !== undefined ? path.join(webDir, s.src.replace(/[?#].*$/, "")) : path.join(webDir, `inline-${i}.js`);
    const text = s.src !== undefined ? source(file) : s.text;
    if (s.module) {
      const m = get(file, text);
      await m.link(link);
      await m.evaluate();
    } else vm.runInContext(text, page.context, { filename: file });
  }
}

const opaque = (d, o) => d[o + 3] === 255 && d[o] < 0x80 && d[o + 1] < 0x80 && d[o + 2] < 0x80;
function compare(page, word) {
  const { canvas } = page;
  if (canvas.width !== W || canvas.height !== H) throw new Fail(`the canvas is ${canvas.width}x${canvas.height}, not ${W}x${H}`);
  if (page.log.puts === 0) throw new Fail("nothing was painted on the canvas");
  const d = canvas.pixels();
  let bad = 0, first = "", dark = 0;
  for (let y = 0; y < H; y++) for (let x = 0; x < W; x++) {
    const bit = (word(y * WPL + (x >> 5)) >>> (x & 31)) & 1, o = (y * W + x) * 4;
    if (bit === 0) dark++;
    if (bit === 1 ? d[o + 3] !== 0 : !opaque(d, o)) {
      if (bad++ === 0) first = `x=${x} y=${y} is rgba(${d[o]},${d[o + 1]},${d[o + 2]},${d[o + 3]}) where the frame buffer pixel is ${bit}`;
    }
  }
  if (bad) throw new Fail(`${bad} canvas pixels are wrong, the first at ${first}`);
  return dark;
}

// ------------------------------------------------------- generated buffers
function rng(s) {
  let a = (s ^ 0x9e3779b9) >>> 0;
  return () => {
    a = (a + 0x6d2b79f5) >>> 0;
    let t = a;
    t = Math.imul(t ^ (t >>> 15), t | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return (t ^ (t >>> 14)) >>> 0;
  };
}
function buffer(c) {
  const v = new Uint32Array(WORDS), r = rng(c.seed);
  switch (c.kind) {
    case "zeros": break;
    case "ones": v.fill(0xffffffff); break;
    case "noise": for (let i = 0; i < WORDS; i++) v[i] = r(); break;
    case "sparse": for (let i = 0; i < WORDS; i++) v[i] = r() & r() & r() & r(); break;
    case "dense": for (let i = 0; i < WORDS; i++) v[i] = r() | r() | r() | r(); break;
    case "padding": for (let i = 0; i < WORDS; i++) v[i] = i % WPL === WPL - 1 ? 0xffff0000 : 0; break;
    case "inverse padding": for (let i = 0; i < WORDS; i++) v[i] = i % WPL === WPL - 1 ? 0x0000ffff : 0xffffffff; break;
    case "columns": for (let i = 0; i < WORDS; i++) v[i] = 0x55555555; break;
    case "rows": for (let i = 0; i < WORDS; i++) v[i] = Math.floor(i / WPL) % 2 ? 0xffffffff : 0; break;
  }
  for (const [x, y] of c.dots) v[(y % H) * WPL + ((x % 352) >> 5)] ^= (1 << ((x % 352) & 31));
  return v;
}
async function fakeCase(c) {
  const want = buffer(c);
  const start = Math.min(c.offset * 4, c.pages * 65536 - WORDS * 4);
  const at = c.end ? c.pages * 65536 - WORDS * 4 : start;
  const memory = new WebAssembly.Memory({ initial: c.pages });
  const all = new Uint32Array(memory.buffer), r = rng(~c.seed);
  const words = c.noise ? all.length : 0;
  for (let i = 0; i < words; i++) all[i] = r();
  let inits = 0;
  const exports = {
    memory,
    init() { inits++; new Uint32Array(memory.buffer).set(want, at / 4); },
    frame_buf_ptr: () => at,
  };
  const page = makePage(c, { bytes: () => new ArrayBuffer(8), instantiate: (b) => { const instance = { exports }; return b && b._bytes ? instance : { instance, module: {} }; } });
  await settle(page);
  if (inits === 0) throw new Fail("the wasm module was never initialised");
  const m = new Uint32Array(memory.buffer);
  for (let i = 0; i < WORDS; i++) if (m[at / 4 + i] !== want[i]) throw new Fail("the page changed the frame buffer");
  return compare(page, (i) => want[i]);
}
async function realCase(c) {
  const bytes = fs.readFileSync(wasmFile);
  const hex = fs.readFileSync(demoFile, "utf8").trim();
  const want = (i) => parseInt(hex.substr(i * 8, 8), 16);
  let made = null;
  const page = makePage(c, {
    bytes: () => bytes.buffer.slice(bytes.byteOffset, bytes.byteOffset + bytes.length),
    instantiate: (b, imports) => {
      const module = new WebAssembly.Module(b._bytes ?? b);
      made = new WebAssembly.Instance(module, imports ?? {});
      return b._bytes ? made : { instance: made, module };
    },
  });
  await settle(page);
  return compare(page, want);
}
async function settle(page) {
  asyncErrors = [];
  try {
    await load(page);
  } catch (e) {
    throw new Fail("the page's script failed: " + (e?.message ?? e));
  }
  for (let i = 0; i < 40 && page.log.puts === 0 && asyncErrors.length === 0; i++) await ticks(2);
  await ticks(6);
  if (asyncErrors.length) throw new Fail("the page's script failed: " + (asyncErrors[0]?.message ?? asyncErrors[0]));
}

// ------------------------------------------------------------- the search
const stats = { evaluations: 0, seen: new Set(), labels: {}, phases: {}, samples: [] };
let failure = null;
const label = (l) => { stats.labels[l] = (stats.labels[l] ?? 0) + 1; };
async function judge(phase, c, count) {
  const dark = await (phase === "real module" ? realCase(c) : fakeCase(c));
  if (!count) return;
  stats.evaluations++;
  stats.phases[phase] = (stats.phases[phase] ?? 0) + 1;
  label(c.streaming ? "streaming" : "no streaming");
  if (c.kind) label(c.kind);
  if (dark > 0 && dark < W * H) {
    const j = phase + JSON.stringify(c);
    if (!stats.seen.has(j)) {
      stats.seen.add(j);
      if ([3, 20, 100].includes(stats.seen.size)) stats.samples.push({ phase, case: c, dark_pixels: dark });
    }
  }
}
const buffers = fc.record({
  kind: fc.constantFrom("zeros", "ones", "noise", "noise", "noise", "sparse", "dense", "padding", "inverse padding", "columns", "rows"),
  seed: fc.integer({ min: 0, max: 0x7fffffff }),
  dots: fc.array(fc.tuple(fc.oneof(fc.nat(351), fc.constantFrom(0, 31, 32, 319, 320, 335, 336, 351)), fc.oneof(fc.nat(535), fc.constantFrom(0, 1, 534, 535))), { maxLength: 6 }),
  offset: fc.oneof(fc.nat(40000), fc.constantFrom(0, 1, 2, 3, 1024, 16384)),
  pages: fc.integer({ min: 1, max: 6 }),
  end: fc.boolean(),
  noise: fc.boolean(),
  streaming: fc.boolean(),
});
const real = fc.record({ streaming: fc.boolean() });

async function search(phase, arb, n) {
  if (failure) return;
  let failing = false;
  const r = await fc.check(fc.asyncProperty(arb, async (c) => {
    try { await judge(phase, c, !failing); } catch (e) {
      if (!(e instanceof Fail)) { console.error("HARNESS-ERROR", e); process.exit(3); }
      failing = true;
      throw e;
    }
  }), { seed, numRuns: n, endOnFailure: false, timeout: undefined, interruptAfterTimeLimit: undefined });
  if (r.failed) {
    const c = r.counterexample[0];
    let message = "";
    try { await judge(phase, c, false); } catch (e) { message = e.message; }
    failure = { property: "C21", phase, message, case: c, profile: "web" };
  }
}

if (replayFile) {
  const f = JSON.parse(fs.readFileSync(replayFile, "utf8"));
  try { await judge(f.phase, f.case, true); } catch (e) {
    if (!(e instanceof Fail)) { console.error("HARNESS-ERROR", e); process.exit(3); }
    failure = { ...f, message: e.message };
  }
} else {
  await search("generated frame buffers", buffers, tier === "thorough" ? 12000 : Math.max(1, Math.round(400 * Number(process.env.PBT_SCALE ?? 1))));
  for (const streaming of [true, false]) {
    if (!failure) await search("real module", fc.constant({ streaming }), 1);
  }
}
fs.writeFileSync(path.join(outDir, "hashes.bin"), "");
fs.writeFileSync(path.join(outDir, "result.json"), JSON.stringify({
  property: "C21", profile: "web", evaluations: stats.evaluations, distinct_hashed: 0, distinct_enumerated: stats.seen.size, excluded: {}, labels: stats.labels, phases: stats.phases, samples: stats.samples, exhaustive: [], notes: [], known: [], failure,
  rule: "the page's own scripts run in a fresh context for every case with a wasm module whose init() leaves a generated frame buffer at a generated address (with other memory full of noise), and with the real module built from wasm_demo, with and without instantiateStreaming; every canvas pixel compared; non-trivial: both dark and clear pixels on the screen",
  wall_s: Number(process.hrtime.bigint() - started) / 1e9,
}, null, 1));
process.exit(failure ? 1 : 0);
