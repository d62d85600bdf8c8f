//! C20: the same calls in the wasm32 build of the library and natively

use crate::engine::*;
use crate::gens::*;
use crate::lib_api::*;
use crate::oracle::*;
use crate::props_codegen::tool;
use crate::props_paint::{demo, long_case, op, pool, representatives, LongCase, Op};
use crate::remote::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const MAX32: usize = u32::MAX as usize;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WasmCase {
    fb: FbSpec,
    ops: Vec<Op>,
}

fn clip32(c: Clip) -> Clip {
    c.map(|n| n.min(MAX32))
}

pub fn c20(cx: &Ctx) {
    cx.rule("a history of clear_region, paint_str, cursor and demo calls with arguments up to 2^32-1 in the wasm32 build of the library (run by node) and natively, frame buffer and cursor compared after every call; a cursor coordinate beyond 32 bits is compared as 2^32-1; non-trivial: at least 2 paint_str calls that change pixels, or one cluster that has ink");
    let remotes = RemotePool::new(vec!["node".to_string(), tool("PBT_WASM_HOST"), tool("PBT_WASM")]);
    let check = |c: &WasmCase, o: &mut Obs| -> Res {
        let mut fb = c.fb.build();
        let mut k: CurA = [0; 3];
        let mut inked = 0;
        remotes.with(|r| {
            r.set(c.fb)?;
            for (i, op) in c.ops.iter().enumerate() {
                let what = format!("op {}, wasm32 against native", i);
                match op {
                    Op::Clear { clip, .. } => {
                        clear_lib(&mut fb, clip32(*clip))?;
                        let h = r.clear(clip32(*clip)).map_err(|e| format!("op {} in wasm32: {}", i, e))?;
                        r.same_fb(&what, h, &fb[..])?;
                    }
                    Op::Paint { clip, style, text, .. } => {
                        let before = fb.clone();
                        let mut k2 = k;
                        paint_lib(&mut fb, clip32(*clip), &mut k, *style, text)?;
                        let h = r.paint(clip32(*clip), &mut k2, *style, text).map_err(|e| format!("op {} in wasm32: {}", i, e))?;
                        r.same_fb(&what, h, &fb[..])?;
                        k = k.map(|n| n.min(MAX32));
                        cur_diff(&what, k2, k)?;
                        if before != fb {
                            inked += 1;
                        }
                        o.label_if(k.iter().any(|n| *n > 1 << 20), "far off-screen cursor");
                    }
                    Op::SetCursor { to, .. } => k = to.map(|n| n.min(MAX32)),
                    Op::TopLeft { clip, .. } => k = [clip[0].min(MAX32), clip[1].min(MAX32), 0],
                    Op::Demo { which, .. } => {
                        demo(&mut fb, *which)?;
                        let h = r.demo(*which % 3).map_err(|e| format!("op {} in wasm32: {}", i, e))?;
                        r.same_fb(&what, h, &fb[..])?;
                        o.label("demo");
                    }
                }
            }
            Ok(())
        })?;
        o.nontrivial = inked >= 2 || inked == 1 && c.ops.len() == 2;
        Ok(())
    };
    let p = pool(cx);
    let pp = p.clone();
    cx.prop("history", cx.n(12_000, 400_000), move || (fb_spec(), proptest::collection::vec(op(&pp), 1..24)).prop_map(|(fb, ops)| WasmCase { fb, ops }), check);
    let pp = p.clone();
    cx.prop("extreme", cx.n(20_000, 600_000), move || {
        let clips = prop_oneof![3 => valid_clip(), 2 => odd_clip()].boxed();
        let one = (clips, extreme_cursor(), 0usize..3, text(&pp)).prop_map(|(clip, to, style, text)| vec![Op::SetCursor { cur: 0, to }, Op::Clear { fb: 0, clip }, Op::Paint { fb: 0, cur: 0, clip, style, text }]);
        (fb_spec(), proptest::collection::vec(one, 1..4)).prop_map(|(fb, v)| WasmCase { fb, ops: v.concat() })
    }, check);
    let pp = p.clone();
    cx.prop_shrink("long texts", cx.n(40, 1_500), cx.threads, 60, 60_000, move || long_case(&pp), |c: &LongCase, o| {
        let a = c.full();
        check(&WasmCase { fb: a.fb, ops: vec![Op::SetCursor { cur: 0, to: a.cur }, Op::Paint { fb: 0, cur: 0, clip: a.clip, style: a.style, text: a.text }] }, o)
    });
    let one = |to: CurA, style: usize, text: String| WasmCase {
        fb: FbSpec::Zero,
        ops: vec![Op::SetCursor { cur: 0, to }, Op::Paint { fb: 0, cur: 0, clip: [0, 0, W, H], style, text }],
    };
    let mut cases = vec![];
    for s in p.ascii.iter().chain(&p.latin).chain(&p.nfd).chain(&p.emoji1).chain(&p.emoji_n).chain(&p.hanzi).chain(&p.bounds).chain(&p.parts) {
        for st in 0..3 {
            cases.push(one([9, 9, 0], st, s.clone()));
        }
    }
    cx.each("every cluster", cases, check);
    cx.exhaustive("every cluster and alias in every style");
    let mut cases = vec![];
    for (st, s) in representatives(&cx.fonts) {
        for x in 0..32 {
            cases.push(one([x, x, 0], st, s.clone()));
        }
    }
    cx.each("alignments", cases, check);
    cx.exhaustive("a glyph of every width at every alignment within a word");
}
