#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
T = {
 "C01": "property-based testing: invariant over generated calls (bits outside the clip rectangle unchanged), shrinking",
 "C02": "property-based fuzzing of all argument values in builds with and without overflow checks, with a CPU time limit per call",
 "C03": "property-based testing against a per-pixel reference; systematic edge alignments",
 "C04": "metamorphic property-based testing (other background, painting twice)",
 "C05": "differential property-based testing against a longest-match reference built from the source indices; all scalar values enumerated",
 "C06": "model-based property testing of cursor and layout against a reference renderer",
 "C07": "differential property-based testing against the sprite sheets; every cluster in every style",
 "C08": "metamorphic property-based testing (split against whole)",
 "C09": "metamorphic property-based testing (shortened clip rectangle)",
 "C10": "metamorphic property-based testing (translation)",
 "C11": "metamorphic property-based testing (respelling)",
 "C12": "metamorphic and differential property-based testing (styles)",
 "C13": "property-based testing of constructors and conversions against their definitions",
 "C14": "property-based testing of layout invariants glyph by glyph",
 "C15": "stateful model-based property testing of call histories, also concurrent ones",
 "C16": "property-based testing of the generator pipeline: generated sprite sheets, generated fonts compiled in, every cluster against its cell",
 "C17": "property-based testing of the generator pipeline: generated indices and aliases, differential against a longest-match reference",
 "C18": "property-based fault injection into the generator's command line, inputs and outputs",
 "C19": "differential property-based testing: committed fonts against regenerated fonts",
 "C20": "differential stateful property testing: wasm32 build against native build",
 "C21": "property-based testing of the page's scripts with generated frame buffers against a per-pixel oracle",
 "C22": "metamorphic stateful property testing (other history, same screen)",
 "C23": "property-based fault injection into the generator's sources (one mistake per case), oracle: refused and not written",
 "C24": "property-based testing with searched hash collisions, oracle: generator or generated unit tests fail exactly on equal hashes",
 "C25": "property-based testing of the generator with generated legal notices, oracle: the lines of the notice",
 "C26": "metamorphic property-based testing of the generator (other selection and order of fonts, same bytes)",
 "C28": "property-based testing with a counting allocator and a patterned stack, texts of up to a million code points",
 "C30": "differential stateful property testing: committed wasm module against the one built from the sources and the native demo",
 "C29": "property-based testing of the generator, its files read back by a parser of their own description, against the sources",
 "C27": "property-based testing of the generator's messages against the file tree",
}
N = {
 "C05": " Texts that collide with an indexed cluster under the 32-bit hash are known findings.",
 "C18": " Faults are real failing system calls (full device, file size limit, missing directories); crashes in the middle of a write are not simulated.",
 "C19": " Pixel equality is checked, not equality of the generated files.",
 "C20": " Trusts node's WebAssembly engine; uses the rust 1.98.0 toolchain that has the wasm32 target.",
 "C28": " Stack depth is measured for the optimised x86-64 build, on the bytes a call overwrites.",
 "C21": " Canvas, fetch and document are stand-ins; the module is built afresh from wasm_demo (the committed one is C30).",
}
base = "Randomised and partly enumerated search over generated cases with a deterministic seed; no proof. Trusts the oracle, rustc and the test harness."
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --setup",
 "checks": [{
   "property": p["id"],
   "quick_cmd": "python3 check.py %s quick" % p["id"],
   "thorough_cmd": "python3 check.py %s thorough" % p["id"],
   "evidence_file": "evidence/%s.json" % p["id"],
   "technique": T[p["id"]],
   "level": "exploration",
   "level_note": base + N.get(p["id"], ""),
 } for p in P],
 "not_applicable": [],
 "notes": "No hooks: every check uses only the public API, the code generator's command line and the page's scripts. A failing case is shrunk and saved under replays/; `python3 check.py --replay FILE` judges it again.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
