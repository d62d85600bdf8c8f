//! The properties of the drawing calls (C01 to C15, C22)

use crate::engine::*;
use crate::gens::*;
use crate::lib_api::*;
use crate::oracle::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;
use unicode_normalization::UnicodeNormalization;

pub fn pool(cx: &Ctx) -> Arc<Pool> {
    Arc::new(Pool::new(&cx.fonts))
}

const COLLISION: &str = "hash collision (known finding of C05)";

/// Does the paint exercise clipping? (labels, and whether some ink is cut)
fn clip_labels(placed: &[Placed], cx: &Ctx, clip: Rect, o: &mut Obs) -> bool {
    let mut cut = false;
    for p in placed {
        let g = cx.fonts.glyph(p.fg);
        if g.is_blank() {
            continue;
        }
        o.label_if(p.wrapped, "wrap");
        let (x1, y1) = (p.x + g.w, p.y.saturating_add(g.h));
        if p.y < clip.y0 && y1 > clip.y0 {
            o.label("cut at top");
            cut = true;
        }
        if p.y < clip.y1 && y1 > clip.y1 {
            o.label("cut at bottom");
            cut = true;
        }
        if y1 <= clip.y0 {
            o.label("all above");
            cut = true;
        }
        if p.y >= clip.y1 {
            o.label("all below");
            cut = true;
        }
        if x1 > clip.x1 {
            o.label("cut at right");
            cut = true;
        }
        o.label_if(p.x % 32 + g.w > 32, "spans words");
    }
    cut
}

// ---------------------------------------------------------------- C01

pub fn c01(cx: &Ctx) {
    cx.rule("one paint_str call with a generated frame buffer, clip rectangle (full, padded, narrow, word-aligned, empty, inverted, off-screen), cursor (inside, outside, far away), style and text; non-trivial: the rectangle is not drawable, or the reference layout cuts or hides some ink at an edge of it and still shows some");
    let p = pool(cx);
    let check = |c: &PaintCase, o: &mut Obs| -> Res {
        let before = c.fb.build();
        let mut fb = before.clone();
        let mut k = c.cur;
        paint_lib(&mut fb, c.clip, &mut k, c.style, &c.text)?;
        let r = rect(c.clip);
        let d = xor(&fb, &before);
        let m = mask(r);
        for i in 0..FB_WORDS {
            let out = d[i] & !m[i];
            if out != 0 {
                let x = i % WPL * 32 + out.trailing_zeros() as usize;
                return Err(format!("pixel x={} y={} outside of the clip rectangle {:?} was changed", x, i / WPL, c.clip));
            }
        }
        if !r.valid() {
            o.label("not drawable");
            o.nontrivial = !c.text.is_empty();
        } else {
            let (segs, _) = cx.fonts.segment(&c.text, style(c.style));
            let mut mfb = c.fb.build();
            let placed = paint(&cx.fonts, &mut mfb[..], r, &mut cur(c.cur), &segs);
            let cut = clip_labels(&placed, cx, r, o);
            o.nontrivial = cut && ink(&d[..]) > 0;
        }
        Ok(())
    };
    let pp = p.clone();
    cx.prop("random", cx.n(160_000, 4_000_000), move || paint_case(with_cursor(any_clip()), text(&pp)), check);
    let pp = p.clone();
    cx.prop("extreme cursors", cx.n(20_000, 500_000), move || paint_case((any_clip(), extreme_cursor()).boxed(), text(&pp)), check);
    // Every glyph width at every distance from the right edge and every height at the bottom and top
    let mut cases = vec![];
    let reps = representatives(&cx.fonts);
    for (st, s) in &reps {
        for n in 1..44usize {
            for x1 in [W, 300, 64, 33] {
                let x0 = x1 - n.min(x1);
                cases.push(PaintCase { fb: FbSpec::Seed(n as u64), clip: [x0, 100, x1, 160], cur: [x0, 110, 0], style: *st, text: s.clone() });
            }
            cases.push(PaintCase { fb: FbSpec::Seed(n as u64), clip: [10, 100, 90, 140], cur: [20, 60 + n, 0], style: *st, text: s.clone() });
            cases.push(PaintCase { fb: FbSpec::Seed(n as u64), clip: [10, 100, 90, 100 + n], cur: [20, 90, 0], style: *st, text: s.clone() });
            cases.push(PaintCase { fb: FbSpec::Seed(n as u64), clip: [0, 0, W, H], cur: [20, H + 2 - n, 0], style: *st, text: s.clone() });
        }
    }
    cx.each("edges", cases, check);
}

/// One (style, cluster) for each font and glyph width and one for each font, height and offset
pub fn representatives(fonts: &Fonts) -> Vec<(usize, String)> {
    let mut seen = HashSet::new();
    let mut out = vec![];
    for (st, id) in [(0, FontId::Small), (1, FontId::Regular), (2, FontId::Bold), (0, FontId::Emoji), (1, FontId::Hanzi)] {
        let f = fonts.font(id);
        for (s, g) in &f.entries {
            // Only what this lookup order really reaches
            let (segs, _) = fonts.segment(s, style(st));
            if segs.len() != 1 || segs[0].font_glyph() != Some((id, *g)) {
                continue;
            }
            let gl = &f.glyphs[*g];
            let a = seen.insert((id, 0, gl.w, 0));
            let b = seen.insert((id, 1, gl.h, gl.yoff));
            if a || b {
                out.push((st, s.clone()));
            }
        }
    }
    out
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ValuesCase {
    a: [usize; 4],
    n: usize,
}

pub fn c02(cx: &Ctx) {
    cx.rule("drawing calls and constructors with extreme, inverted, off-screen and ordinary numbers, any text and any background, in builds with and without overflow checks; non-trivial: the text is not empty and the clip rectangle or the cursor is off the screen, or the text has over 300 code points");
    let p = pool(cx);
    let off = |c: &PaintCase| !rect(c.clip).valid() || c.cur[0] > W || c.cur[1] > H || c.cur[2] > 100;
    let check = |c: &PaintCase, o: &mut Obs| -> Res {
        let mut fb = c.fb.build();
        let mut k = c.cur;
        let t = std::time::Instant::now();
        paint_lib(&mut fb, c.clip, &mut k, c.style, &c.text)?;
        let _ = t;
        clear_lib(&mut fb, c.clip)?;
        o.label_if(rect(c.clip).valid(), "drawable clip");
        o.label_if(c.cur[0] > usize::MAX / 2, "cursor x huge");
        o.label_if(c.cur[1] > usize::MAX / 2, "cursor y huge");
        o.label_if(c.cur[2] > usize::MAX / 2, "line height huge");
        let long = c.text.chars().count() > 300;
        o.label_if(long, "long text");
        o.nontrivial = !c.text.is_empty() && (off(c) || long);
        Ok(())
    };
    let pp = p.clone();
    cx.prop("random", cx.n(60_000, 1_500_000), move || paint_case(with_cursor(any_clip()), text(&pp)), check);
    let pp = p.clone();
    let clips = || prop_oneof![3 => valid_clip(), 3 => odd_clip(), 1 => (extreme(), extreme(), extreme(), extreme()).prop_map(|(a, b, c, d)| [a, b, c, d])].boxed();
    cx.prop("extreme", cx.n(150_000, 3_000_000), move || paint_case((clips(), extreme_cursor()).boxed(), text(&pp)), check);
    let pp = p.clone();
    cx.prop("arbitrary text", cx.n(30_000, 1_000_000), move || paint_case(with_cursor(any_clip()), {
        let _ = &pp;
        prop_oneof![
            proptest::collection::vec(any::<char>(), 0..60).prop_map(|v| v.into_iter().collect::<String>()),
            proptest::collection::vec(0x80u32..0x3200, 0..60).prop_map(|v| v.into_iter().filter_map(char::from_u32).collect::<String>()),
            proptest::collection::vec(0x1F000u32..0x1FB00, 0..60).prop_map(|v| v.into_iter().filter_map(char::from_u32).collect::<String>()),
            proptest::collection::vec(any::<u8>(), 0..120).prop_map(|v| String::from_utf8_lossy(&v).into_owned()),
        ]
        .boxed()
    }), check);
    let pp = p.clone();
    cx.prop("long text", cx.n(300, 6_000), move || {
        let one = (atom(&pp), 200usize..4000).prop_map(|(a, n)| a.repeat(n)).boxed();
        let many = proptest::collection::vec(atom(&pp), 300..2000).prop_map(join).boxed();
        paint_case(with_cursor(any_clip()), prop_oneof![one, many].boxed())
    }, check);
    // Every cluster and every boundary code point, at the far end of everything
    let mut cases = vec![];
    for s in p.latin.iter().chain(&p.nfd).chain(&p.emoji1).chain(&p.emoji_n).chain(&p.hanzi).chain(&p.prefixes).chain(&p.bounds) {
        for (i, k) in [[usize::MAX, usize::MAX, usize::MAX], [335, 535, 0], [0, usize::MAX - 3, 0], [usize::MAX - 1, 7, usize::MAX]].iter().enumerate() {
            cases.push(PaintCase { fb: FbSpec::Zero, clip: [0, 0, W, H], cur: *k, style: i % 3, text: s.clone() });
            cases.push(PaintCase { fb: FbSpec::Zero, clip: [W - 1, H - 1, W, H], cur: *k, style: (i + 1) % 3, text: format!("{}{}", s, s) });
        }
    }
    cx.each("clusters at the limits", cases, check);
    cx.prop("values", cx.n(20_000, 200_000), || (extreme(), extreme(), extreme(), extreme(), prop_oneof![extreme(), 0usize..300]).prop_map(|(a, b, c, d, n)| ValuesCase { a: [a, b, c, d], n }), |c, o| {
        o.nontrivial = true;
        imp(|| {
            let r = blitstr::ClipRect::new(c.a[0], c.a[1], c.a[2], c.a[3]);
            let _ = blitstr::Cursor::from_top_left_of(r);
            let _ = blitstr::Cursor::new(c.a[0], c.a[1], c.a[2]);
            let _ = blitstr::Pt::new(c.a[0], c.a[1]) < blitstr::Pt::new(c.a[2], c.a[3]);
            let g = blitstr::GlyphStyle::from(c.n);
            let _ = blitstr::glyph_to_height_hint(g);
            let n: usize = g.into();
            let _ = n;
            let _ = blitstr::ClipRect::full_screen();
            let _ = blitstr::ClipRect::padded_screen();
        })
    });
    cx.prop("demos", cx.n(300, 3_000), fb_spec, |c, o| {
        o.nontrivial = true;
        let mut fb = c.build();
        imp(|| blitstr::demo::sample_text(&mut fb))?;
        imp(|| blitstr::demo::short_greeting(&mut fb))?;
        imp(|| blitstr::demo::goose_poem(&mut fb))
    });
}

// ---------------------------------------------------------------- C03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ClearCase {
    fb: FbSpec,
    clip: Clip,
}

pub fn c03(cx: &Ctx) {
    cx.rule("one clear_region call; non-trivial: some pixel of the rectangle was set to 0 before, or the rectangle is not drawable");
    let check = |c: &ClearCase, o: &mut Obs| -> Res {
        let before = c.fb.build();
        let mut fb = before.clone();
        clear_lib(&mut fb, c.clip)?;
        let mut want = before.clone();
        let r = rect(c.clip);
        clear(&mut want[..], r);
        o.nontrivial = !r.valid() || want != before;
        o.label(if !r.valid() {
            "not drawable"
        } else if r.x0 / 32 == (r.x1 - 1) / 32 {
            "edges in one word"
        } else if r.x0 / 32 + 1 == (r.x1 - 1) / 32 {
            "edges in neighbouring words"
        } else {
            "whole words between the edges"
        });
        o.label_if(r.valid() && r.x0 % 32 == 0, "left edge on a word boundary");
        o.label_if(r.valid() && r.x1 % 32 == 0, "right edge on a word boundary");
        fb_diff("clear_region", &fb[..], &want[..])
    };
    cx.prop("random", cx.n(200_000, 4_000_000), || (fb_spec(), any_clip()).prop_map(|(fb, clip)| ClearCase { fb, clip }), check);
    let clips = || (extreme(), extreme(), extreme(), extreme()).prop_map(|(a, b, c, d)| [a, b, c, d]);
    cx.prop("extreme", cx.n(40_000, 1_000_000), move || (fb_spec(), clips()).prop_map(|(fb, clip)| ClearCase { fb, clip }), check);
    let mut cases = vec![];
    for x0 in 0..W + 2 {
        for x1 in 0..W + 2 {
            let y = (x0 * 7 + x1 * 3) % (H - 2);
            cases.push(ClearCase { fb: FbSpec::Zero, clip: [x0, y, x1, y + 2] });
            if cx.tier == Tier::Thorough {
                cases.push(ClearCase { fb: FbSpec::Seed((x0 * 1000 + x1) as u64), clip: [x0, 0, x1, H] });
                cases.push(ClearCase { fb: FbSpec::Zero, clip: [x0, H - 1, x1, H] });
            }
        }
    }
    for y0 in 0..H + 2 {
        for y1 in 0..H + 2 {
            if cx.tier == Tier::Thorough || (y0 * 31 + y1) % 16 == 0 || y0 < 3 || y1 > H - 3 || y0 + 3 > y1 && y0 < y1 + 3 {
                cases.push(ClearCase { fb: FbSpec::Zero, clip: [3, y0, 40, y1] });
            }
        }
    }
    cx.each("all x ranges", cases, check);
    cx.exhaustive("every pair of left and right edge from 0 to 337 (background all 0, two lines)");
}

// ---------------------------------------------------------------- C04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct XorCase {
    a: PaintCase,
    fb2: FbSpec,
}

pub fn c04(cx: &Ctx) {
    cx.rule("the same paint_str call on two backgrounds, then again on the first result; non-trivial: some pixel was inverted");
    let p = pool(cx);
    let check = |c: &XorCase, o: &mut Obs| -> Res {
        let a0 = c.a.fb.build();
        let b0 = c.fb2.build();
        let (mut a, mut b) = (a0.clone(), b0.clone());
        let (mut ka, mut kb) = (c.a.cur, c.a.cur);
        paint_lib(&mut a, c.a.clip, &mut ka, c.a.style, &c.a.text)?;
        paint_lib(&mut b, c.a.clip, &mut kb, c.a.style, &c.a.text)?;
        cur_diff("same call on another background", kb, ka)?;
        let da = xor(&a, &a0);
        fb_diff("inverted pixels on another background", &xor(&b, &b0)[..], &da[..])?;
        let mut k2 = c.a.cur;
        paint_lib(&mut a, c.a.clip, &mut k2, c.a.style, &c.a.text)?;
        cur_diff("painting again", k2, ka)?;
        fb_diff("painting twice must restore the frame buffer", &a[..], &a0[..])?;
        o.nontrivial = ink(&da[..]) > 0;
        o.label_if(!rect(c.a.clip).valid(), "not drawable");
        Ok(())
    };
    let pp = p.clone();
    cx.prop("random", cx.n(120_000, 3_000_000), move || {
        (paint_case(with_cursor(any_clip()), text(&pp)), prop_oneof![3 => Just(FbSpec::Zero), 1 => Just(FbSpec::Ones), 2 => fb_spec()]).prop_map(|(a, fb2)| XorCase { a, fb2 })
    }, check);
    // Every cluster, at varying alignments
    let mut cases = vec![];
    for (i, s) in p.latin.iter().chain(&p.nfd).chain(&p.emoji1).chain(&p.emoji_n).chain(&p.hanzi).enumerate() {
        for st in 0..3 {
            cases.push(XorCase {
                a: PaintCase { fb: FbSpec::Seed(i as u64), clip: [0, 0, W, H], cur: [i % 64, i % 500, 0], style: st, text: s.clone() },
                fb2: if i % 2 == 0 { FbSpec::Zero } else { FbSpec::Ones },
            });
        }
    }
    cx.each("every cluster", cases, check);
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ScalarCase {
    style: usize,
    from: u32,
    to: u32,
}

/// Paint with the library and with the reference and compare everything
fn against_model(cx: &Ctx, c: &PaintCase, segs: &[Seg]) -> Result<(Vec<Placed>, u32), String> {
    let before = c.fb.build();
    let mut fb = before.clone();
    let mut k = c.cur;
    paint_lib(&mut fb, c.clip, &mut k, c.style, &c.text)?;
    let mut want = before.clone();
    let mut mk = cur(c.cur);
    let placed = paint(&cx.fonts, &mut want[..], rect(c.clip), &mut mk, segs);
    cur_diff("against the reference renderer", k, as_cur_a(mk))?;
    fb_diff("against the reference renderer", &fb[..], &want[..])?;
    Ok((placed, ink(&xor(&want, &before)[..])))
}

/// A call with a text of some ten thousand bytes or more
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongCase {
    /// (text: what comes first)
    pub a: PaintCase,
    pub unit: String,
    pub times: usize,
    pub tail: String,
}

impl LongCase {
    pub fn full(&self) -> PaintCase {
        let mut a = self.a.clone();
        a.text.push_str(&self.unit.repeat(self.times));
        a.text.push_str(&self.tail);
        a
    }
}

pub fn long_case(p: &Arc<Pool>) -> BoxedStrategy<LongCase> {
    let unit = prop_oneof![2 => atom(p), 3 => text(p), 1 => Just("a".to_string())].prop_filter("empty", |s| !s.is_empty());
    // Around and beyond the powers of two where a count could run over
    let bytes = prop_oneof![2 => 20_000usize..60_000, 3 => 65_000usize..80_000, 2 => 130_000usize..160_000, 2 => 80_000usize..400_000];
    (paint_case(with_cursor(valid_clip()), text(p)), unit, bytes, text(p))
        .prop_map(|(a, unit, bytes, tail)| {
            let times = bytes / unit.len() + 1;
            LongCase { a, unit, times, tail }
        })
        .boxed()
}

fn seg_labels(cx: &Ctx, text: &str, segs: &[Seg], o: &mut Obs) -> (bool, bool) {
    let (mut multi, mut missing) = (false, false);
    let mut i = 0;
    for s in segs {
        match s {
            Seg::Newline => o.label("newline"),
            Seg::Missing { .. } => {
                missing = true;
                o.label("unknown code point");
            }
            Seg::Glyph { font, len, .. } => {
                if text[i..i + len].chars().count() > 1 {
                    multi = true;
                    o.label("multi code point cluster");
                }
                o.label(match font {
                    FontId::Emoji => "emoji",
                    FontId::Hanzi => "hanzi",
                    _ => "latin",
                });
            }
        }
        i += s.len();
    }
    let _ = cx;
    (multi, missing)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KnownEntry {
    pub property: String,
    pub style: usize,
    pub text: String,
    pub what: String,
}

pub fn c05(cx: &Ctx, known: &[KnownEntry]) {
    cx.rule("one paint_str call with text mixed from clusters, clusters cut short or extended, combining marks, unknown code points and newlines, compared with a reference that segments by longest match on the source indices; plus every Unicode scalar value alone in every style; non-trivial: at least 3 segments of which one is a multi code point cluster or an unknown code point (and every enumerated scalar)");
    let p = pool(cx);
    let check = |c: &PaintCase, o: &mut Obs| -> Res {
        let (segs, col) = cx.fonts.segment(&c.text, style(c.style));
        if col.is_some() {
            o.excluded = Some(COLLISION);
            // Either right, or exactly the known defect
            let ideal = against_model(cx, c, &segs);
            if ideal.is_err() {
                let (follow, _) = cx.fonts.segment_with(&c.text, style(c.style), true);
                against_model(cx, c, &follow)?;
            }
            return Ok(());
        }
        against_model(cx, c, &segs)?;
        let (multi, missing) = seg_labels(cx, &c.text, &segs, o);
        o.nontrivial = segs.len() >= 3 && (multi || missing);
        Ok(())
    };
    let pp = p.clone();
    cx.prop("random", cx.n(140_000, 4_000_000), move || paint_case(with_cursor(valid_clip()), text(&pp)), check);
    let pp = p.clone();
    cx.prop_shrink("long texts", cx.n(60, 2_000), cx.threads, 60, 60_000, move || long_case(&pp), |c: &LongCase, o| check(&c.full(), o));
    // Lots of short, hard text: parts and prefixes of clusters in any order
    let pp = p.clone();
    cx.prop("cluster parts", cx.n(100_000, 3_000_000), move || {
        let pq = pp.clone();
        let n = (pp.parts.len(), pp.prefixes.len(), pp.emoji_n.len(), pp.nfd.len());
        let a = prop_oneof![
            5 => (0..n.0).prop_map({ let p = pq.clone(); move |i| p.parts[i].clone() }),
            4 => (0..n.1).prop_map({ let p = pq.clone(); move |i| p.prefixes[i].clone() }),
            4 => (0..n.2).prop_map({ let p = pq.clone(); move |i| p.emoji_n[i].clone() }),
            3 => (0..n.3).prop_map({ let p = pq.clone(); move |i| p.nfd[i].clone() }),
            3 => atom(&pq),
        ];
        let t = proptest::collection::vec(a, 0..9).prop_map(join).boxed();
        paint_case((Just([0, 0, W, H]), (0usize..300, 0usize..400).prop_map(|(x, y)| [x, y, 0])).boxed(), t)
    }, check);
    // Every cluster cut after and extended by something, alone
    let mut cases = vec![];
    let tails = ["", "\u{FE0F}", "\u{200D}", "\u{20E3}", "\u{1F3FD}", "\u{301}", "e", "\n", "\u{1F1E6}", "\u{E007F}"];
    for (i, s) in p.latin.iter().chain(&p.nfd).chain(&p.emoji1).chain(&p.emoji_n).chain(&p.hanzi).chain(&p.prefixes).enumerate() {
        for (j, t) in tails.iter().enumerate() {
            for st in 0..3 {
                if j == 0 || (i + j) % 3 == st {
                    cases.push(PaintCase { fb: FbSpec::Zero, clip: [0, 0, W, H], cur: [6, 6, 0], style: st, text: format!("{}{}", s, t) });
                }
            }
        }
    }
    cx.each("every cluster with tails", cases, check);
    // Every scalar value
    let scalar = |c: &ScalarCase, o: &mut Obs| -> Res {
        let st = style(c.style);
        let full = [0, 0, W, H];
        let mut want_missing: Option<(Fb, CurA)> = None;
        let zero = FbSpec::Zero.build();
        for n in c.from..c.to {
            let ch = match char::from_u32(n) {
                None => continue,
                Some(ch) => ch,
            };
            o.inner += 1;
            let s = ch.to_string();
            let (segs, col) = cx.fonts.segment(&s, st);
            let mut fb = zero.clone();
            let mut k = [40, 40, 0];
            paint_lib(&mut fb, full, &mut k, c.style, &s).map_err(|e| format!("U+{:04X}: {}", n, e))?;
            let missing = matches!(segs[0], Seg::Missing { .. });
            if col.is_some() {
                o.label("hash collision (known finding)");
                continue;
            }
            if !missing || want_missing.is_none() {
                let mut w = zero.clone();
                let mut mk = cur([40, 40, 0]);
                paint(&cx.fonts, &mut w[..], rect(full), &mut mk, &segs);
                let what = format!("U+{:04X} in style {}", n, c.style);
                cur_diff(&what, k, as_cur_a(mk))?;
                fb_diff(&what, &fb[..], &w[..])?;
                if missing {
                    want_missing = Some((w, as_cur_a(mk)));
                }
            } else if let Some((w, mk)) = &want_missing {
                let what = format!("U+{:04X} (unknown) in style {}", n, c.style);
                cur_diff(&what, k, *mk)?;
                fb_diff(&what, &fb[..], &w[..])?;
            }
        }
        Ok(())
    };
    if cx.profile == "release" || cx.tier == Tier::Thorough || cx.replay.is_some() {
        let mut ranges = vec![];
        for st in 0..3 {
            for b in 0..0x110000 / 0x400 {
                ranges.push(ScalarCase { style: st, from: b * 0x400, to: (b + 1) * 0x400 });
            }
        }
        let split = |c: &ScalarCase| if c.to - c.from == 1 { vec![] } else { (c.from..c.to).map(|n| ScalarCase { from: n, to: n + 1, ..c.clone() }).collect() };
        cx.each_shrink("every scalar", ranges, split, scalar);
        cx.exhaustive("every Unicode scalar value alone, in all three styles");
    }
    // Listed findings
    let k = |c: &PaintCase, _o: &mut Obs| -> Res {
        let (segs, _) = cx.fonts.segment(&c.text, style(c.style));
        match against_model(cx, c, &segs) {
            Ok(_) => Ok(()),
            Err(e) => {
                let listed = known.iter().find(|k| k.property == "C05" && k.style == c.style && k.text == c.text);
                let (follow, col) = cx.fonts.segment_with(&c.text, style(c.style), true);
                match (listed, col) {
                    (Some(l), Some(_)) if against_model(cx, c, &follow).is_ok() => {
                        cx.known.lock().unwrap().push(l.what.clone());
                        Ok(())
                    }
                    _ => Err(e),
                }
            }
        }
    };
    let cases = known.iter().filter(|k| k.property == "C05").map(|k| PaintCase { fb: FbSpec::Zero, clip: [0, 0, W, H], cur: [6, 6, 0], style: k.style, text: k.text.clone() }).collect();
    cx.each("listed findings", cases, k);
}

// ---------------------------------------------------------------- C06

pub fn c06(cx: &Ctx) {
    cx.rule("one paint_str call inside an on-screen clip rectangle, compared with the reference layout after every cluster and as a whole; non-trivial: the layout wraps or breaks a line at least once, or the cursor starts left of the rectangle");
    let p = pool(cx);
    let check = |c: &PaintCase, o: &mut Obs| -> Res {
        let (segs, col) = cx.fonts.segment(&c.text, style(c.style));
        if col.is_some() {
            o.excluded = Some(COLLISION);
            return Ok(());
        }
        let (placed, _) = against_model(cx, c, &segs)?;
        // One cluster per call: the cursor after every cluster
        let mut fb = FbSpec::Zero.build();
        let mut k = c.cur;
        let mut mk = cur(c.cur);
        let mut scratch = FbSpec::Zero.build();
        let mut i = 0;
        for (n, s) in segs.iter().enumerate() {
            paint_lib(&mut fb, c.clip, &mut k, c.style, &c.text[i..i + s.len()])?;
            step(&cx.fonts, &mut scratch[..], rect(c.clip), &mut mk, s);
            cur_diff(&format!("after cluster {}", n), k, as_cur_a(mk))?;
            i += s.len();
        }
        let wraps = placed.iter().filter(|p| p.wrapped).count();
        let newlines = segs.iter().filter(|s| **s == Seg::Newline).count();
        o.label_if(wraps > 0, "wrap");
        o.label_if(wraps > 1, "several wraps");
        o.label_if(newlines > 0, "newline");
        o.label_if(newlines > 1, "several newlines");
        o.label_if(c.cur[0] < c.clip[0], "cursor left of the clip");
        o.label_if(c.cur[0] >= c.clip[2], "cursor right of the clip");
        o.label_if(c.cur[2] > 32, "tall line");
        let fonts: HashSet<_> = placed.iter().map(|p| p.fg.0).collect();
        o.label_if(fonts.len() > 1, "mixed fonts");
        o.nontrivial = !placed.is_empty() && (wraps + newlines > 0 || c.cur[0] < c.clip[0]);
        Ok(())
    };
    let pp = p.clone();
    cx.prop("random", cx.n(120_000, 3_000_000), move || paint_case(with_cursor(valid_clip()), text(&pp)), check);
    // Long text in tall rectangles
    let pp = p.clone();
    cx.prop("paragraphs", cx.n(25_000, 600_000), move || {
        let clips = (x_ranges(), Just((0usize, H))).prop_map(|((a, b), (c, d))| [a, c, b, d]).boxed();
        let t = proptest::collection::vec(prop_oneof![6 => atom(&pp), 1 => Just("\n".to_string())], 20..80).prop_map(join).boxed();
        paint_case((clips, 0u8..10, 0usize..400, 0usize..80, line_height()).prop_map(|(c, kx, a, y, lh)| (c, [near_cursor(c, kx, 0, a, 0, 0)[0], y, lh])).boxed(), t)
    }, check);
    // Every font and width at every cursor column of some rectangles
    let mut cases = vec![];
    for (st, s) in representatives(&cx.fonts) {
        for (x0, x1) in [(0, W), (6, W - 6), (100, 141), (60, 65), (W - 1, W)] {
            for x in 0..x1 + 4 {
                let near = x + 44 > x1 || x < x0 + 3;
                if near || cx.tier == Tier::Thorough {
                    for lh in [0, 40] {
                        cases.push(PaintCase { fb: FbSpec::Zero, clip: [x0, 0, x1, 200], cur: [x, 20, lh], style: st, text: s.clone() });
                    }
                }
            }
        }
    }
    cx.each("wrap boundary", cases, check);
    // Newlines with every line height
    let mut cases = vec![];
    for lh in 0..80 {
        for t in ["\n", "\n\n", "a\n", "\na", "鹅\n\na", "😸\n😸", "\n😸\n"] {
            for st in 0..3 {
                cases.push(PaintCase { fb: FbSpec::Zero, clip: [7, 3, 300, 400], cur: [9, 11, lh], style: st, text: t.to_string() });
            }
        }
    }
    cx.each("newline heights", cases, check);
}

fn x_ranges() -> BoxedStrategy<(usize, usize)> {
    prop_oneof![
        2 => Just((0, W)),
        1 => Just((6, W - 6)),
        4 => (0usize..W, 1usize..W).prop_map(|(a, n)| (a, (a + n).min(W))),
        2 => (0usize..W - 60, 30usize..90).prop_map(|(a, n)| (a, (a + n).min(W))),
    ]
    .boxed()
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GlyphCase {
    cluster: String,
    style: usize,
}

pub fn c07(cx: &Ctx) {
    cx.rule("one cluster of the source indices or alias lists painted at one position in one style, compared with the ink cut from the source sprite sheet; non-trivial: the glyph has ink and some of it is inside of the clip rectangle");
    let p = pool(cx);
    let full = [0, 0, W, H];
    let check = |c: &PaintCase, o: &mut Obs| -> Res {
        let (segs, col) = cx.fonts.segment(&c.text, style(c.style));
        if col.is_some() {
            o.excluded = Some(COLLISION);
            return Ok(());
        }
        let (placed, n) = against_model(cx, c, &segs)?;
        let cut = clip_labels(&placed, cx, rect(c.clip), o);
        o.label_if(cut, "cut or hidden");
        seg_labels(cx, &c.text, &segs, o);
        o.nontrivial = n > 0;
        Ok(())
    };
    let mut all: Vec<String> = p.latin.iter().chain(&p.nfd).chain(&p.emoji1).chain(&p.emoji_n).chain(&p.hanzi).cloned().collect();
    all.sort();
    all.dedup();
    // Every cluster, every style, every alignment to 32-bit words
    let clusters: Vec<GlyphCase> = all.iter().flat_map(|s| (0..3).map(move |st| GlyphCase { cluster: s.clone(), style: st })).collect();
    let step_x = if cx.profile == "release" || cx.tier == Tier::Thorough { 1 } else { 7 };
    cx.each("every cluster at every alignment", clusters, |c, o| {
        for x in (0..32).step_by(step_x) {
            let pc = PaintCase { fb: FbSpec::Zero, clip: full, cur: [64 + x, 10 + x, 0], style: c.style, text: c.cluster.clone() };
            let mut oo = Obs::default();
            check(&pc, &mut oo).map_err(|e| format!("at x={}: {}", 64 + x, e))?;
            if oo.excluded.is_some() {
                o.excluded = oo.excluded;
                return Ok(());
            }
            for l in oo.labels {
                o.label(l);
            }
            o.inner += 1;
        }
        Ok(())
    });
    cx.exhaustive(&format!("every cluster and alias in every style at every {} alignment to 32-bit words, unclipped", if step_x == 1 { "" } else { "7th" }));
    let a = Arc::new(all);
    let aa = a.clone();
    cx.prop("random positions", cx.n(150_000, 4_000_000), move || {
        let a = aa.clone();
        let one = (0..a.len()).prop_map({ let a = a.clone(); move |i| a[i].clone() }).boxed();
        paint_case(with_cursor(valid_clip()), one)
    }, check);
    let aa = a.clone();
    cx.prop("random rows", cx.n(40_000, 1_000_000), move || {
        let a = aa.clone();
        let t = proptest::collection::vec((0..a.len()).prop_map({ let a = a.clone(); move |i| a[i].clone() }), 1..8).prop_map(join).boxed();
        paint_case(with_cursor(valid_clip()), t)
    }, check);
    // Clipped at every row and column: representatives of every size
    let mut cases = vec![];
    for (st, s) in representatives(&cx.fonts) {
        for n in 0..40usize {
            cases.push(PaintCase { fb: FbSpec::Ones, clip: [0, 100 + n, W, 200], cur: [n, 100, 0], style: st, text: s.clone() });
            cases.push(PaintCase { fb: FbSpec::Zero, clip: [0, 50, W, 100 + n], cur: [n + 33, 100, 0], style: st, text: s.clone() });
            cases.push(PaintCase { fb: FbSpec::Zero, clip: [50 + n, 0, 52 + 2 * n, 300], cur: [0, 100, 0], style: st, text: s.clone() });
        }
    }
    cx.each("clipped sizes", cases, check);
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PiecesCase {
    a: PaintCase,
    cuts: u64,
    empties: bool,
}

pub fn c08(cx: &Ctx) {
    cx.rule("a text painted in one call and in pieces cut at cluster boundaries (from the source indices) with the same cursor; non-trivial: at least 2 non-empty pieces, some pixel inverted");
    let p = pool(cx);
    let check = |c: &PiecesCase, o: &mut Obs| -> Res {
        let (segs, col) = cx.fonts.segment(&c.a.text, style(c.a.style));
        let mut pieces: Vec<String> = vec![String::new()];
        let mut i = 0;
        for (n, s) in segs.iter().enumerate() {
            if n > 0 && (c.cuts >> (n % 64)) & 1 == 1 {
                pieces.push(String::new());
            }
            pieces.last_mut().unwrap().push_str(&c.a.text[i..i + s.len()]);
            i += s.len();
        }
        if col.is_some() || pieces.iter().any(|t| cx.fonts.segment(t, style(c.a.style)).1.is_some()) {
            o.excluded = Some(COLLISION);
            return Ok(());
        }
        let before = c.a.fb.build();
        let mut one = before.clone();
        let mut k1 = c.a.cur;
        paint_lib(&mut one, c.a.clip, &mut k1, c.a.style, &c.a.text)?;
        let mut many = before.clone();
        let mut k2 = c.a.cur;
        for t in &pieces {
            paint_lib(&mut many, c.a.clip, &mut k2, c.a.style, t)?;
            if c.empties {
                paint_lib(&mut many, c.a.clip, &mut k2, c.a.style, "")?;
            }
        }
        cur_diff("painted in pieces", k2, k1)?;
        fb_diff("painted in pieces", &many[..], &one[..])?;
        let real = pieces.iter().filter(|t| !t.is_empty()).count();
        o.nontrivial = real >= 2 && many != before;
        let mut w = FbSpec::Zero.build();
        let placed = paint(&cx.fonts, &mut w[..], rect(c.a.clip), &mut cur(c.a.cur), &segs);
        clip_labels(&placed, cx, rect(c.a.clip), o);
        seg_labels(cx, &c.a.text, &segs, o);
        Ok(())
    };
    let pp = p.clone();
    let cuts = || prop_oneof![2 => Just(u64::MAX), 3 => any::<u64>(), 1 => (0u64..64).prop_map(|n| 1 << n)];
    cx.prop("random", cx.n(140_000, 3_000_000), move || {
        (paint_case(with_cursor(valid_clip()), text(&pp)), cuts(), any::<bool>()).prop_map(|(a, cuts, empties)| PiecesCase { a, cuts, empties })
    }, check);
    let pp = p.clone();
    cx.prop_shrink("long texts", cx.n(40, 1_500), cx.threads, 60, 60_000, move || (long_case(&pp), cuts(), any::<bool>()), |(c, cuts, empties): &(LongCase, u64, bool), o| check(&PiecesCase { a: c.full(), cuts: *cuts, empties: *empties }, o));
    // Running off the bottom of the rectangle
    let pp = p.clone();
    cx.prop("off the bottom", cx.n(30_000, 600_000), move || {
        let clips = (x_ranges(), 0usize..H - 70, 1usize..70).prop_map(|((a, b), y, h)| [a, y, b, y + h]).boxed();
        (paint_case((clips, 0usize..40, 0usize..80).prop_map(|(c, x, y)| (c, [c[0] + x, c[1] + y, 0])).boxed(), text(&pp)), cuts(), any::<bool>())
            .prop_map(|(a, cuts, empties)| PiecesCase { a, cuts, empties })
    }, check);
}

// ---------------------------------------------------------------- C09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BandCase {
    a: PaintCase,
    top: usize,
    bottom: usize,
}

pub fn c09(cx: &Ctx) {
    cx.rule("the same text from the same cursor in a rectangle and in a horizontal band of it; non-trivial: the band hides some but not all of the inverted pixels");
    let p = pool(cx);
    let check = |c: &BandCase, o: &mut Obs| -> Res {
        let big = c.a.clip;
        let h = big[3] - big[1];
        let y0 = big[1] + c.top % h;
        let y1 = y0 + 1 + c.bottom % (big[3] - y0);
        let small = [big[0], y0, big[2], y1];
        let before = c.a.fb.build();
        let (mut a, mut b) = (before.clone(), before.clone());
        let (mut ka, mut kb) = (c.a.cur, c.a.cur);
        paint_lib(&mut a, big, &mut ka, c.a.style, &c.a.text)?;
        paint_lib(&mut b, small, &mut kb, c.a.style, &c.a.text)?;
        cur_diff(&format!("in the band y={}..{}", y0, y1), kb, ka)?;
        let m = mask(rect(small));
        let (da, db) = (xor(&a, &before), xor(&b, &before));
        let mut want = da.clone();
        for (x, y) in want.iter_mut().zip(m.iter()) {
            *x &= *y;
        }
        fb_diff(&format!("inverted pixels in the band y={}..{}", y0, y1), &db[..], &want[..])?;
        o.nontrivial = ink(&db[..]) > 0 && ink(&db[..]) < ink(&da[..]);
        o.label_if(y0 > big[1], "cut at top");
        o.label_if(y1 < big[3], "cut at bottom");
        o.label_if(ka[1] != c.a.cur[1], "several lines");
        Ok(())
    };
    let band = |top: BoxedStrategy<usize>, bottom: BoxedStrategy<usize>| (top, bottom);
    let pp = p.clone();
    cx.prop("random", cx.n(80_000, 2_000_000), move || {
        (paint_case(with_cursor(valid_clip()), text(&pp)), band((0usize..H).boxed(), (0usize..H).boxed())).prop_map(|(a, (top, bottom))| BandCase { a, top, bottom })
    }, check);
    // Bands near the cursor
    let pp = p.clone();
    cx.prop("near the text", cx.n(80_000, 2_000_000), move || {
        let clips = x_ranges().prop_map(|(a, b)| [a, 0, b, H]).boxed();
        let cc = (clips, 0usize..200, 0usize..500, line_height()).prop_map(|(c, x, y, lh)| (c, [c[0] + x % (c[2] - c[0]), y, lh])).boxed();
        (paint_case(cc, text(&pp)), 0usize..120, 0usize..100).prop_map(|(a, t, bottom)| {
            let top = (a.cur[1] + t).saturating_sub(20).min(H - 1);
            BandCase { a, top, bottom }
        })
    }, check);
    // Every band edge across every size of glyph
    let mut cases = vec![];
    for (st, s) in representatives(&cx.fonts) {
        for n in 0..36 {
            let a = PaintCase { fb: FbSpec::Zero, clip: [0, 100, W, 200], cur: [10, 100, 0], style: st, text: format!("{}a鹅", s) };
            cases.push(BandCase { a: a.clone(), top: 0, bottom: n });
            cases.push(BandCase { a: a.clone(), top: n, bottom: 500 });
            cases.push(BandCase { a: a.clone(), top: n, bottom: 0 });
        }
    }
    cx.each("every edge", cases, check);
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MoveCase {
    fb: FbSpec,
    fb2: FbSpec,
    w: usize,
    h: usize,
    /// Corner of the first and of the second rectangle
    a: [usize; 2],
    b: [usize; 2],
    /// Cursor relative to the corner, and line height
    cur: [i64; 2],
    lh: usize,
    style: usize,
    text: String,
}

pub fn c10(cx: &Ctx) {
    cx.rule("the same text with the same cursor relative to two rectangles of equal size at different places on the screen; non-trivial: some pixel inverted and the move changes the alignment to 32-bit words");
    let p = pool(cx);
    let check = |c: &MoveCase, o: &mut Obs| -> Res {
        let run = |at: [usize; 2], fb: FbSpec| -> Result<Option<(Fb, CurA)>, String> {
            let (x, y) = (at[0] as i64 + c.cur[0], at[1] as i64 + c.cur[1]);
            if x < 0 || y < 0 {
                return Ok(None);
            }
            let before = fb.build();
            let mut f = before.clone();
            let mut k = [x as usize, y as usize, c.lh];
            paint_lib(&mut f, [at[0], at[1], at[0] + c.w, at[1] + c.h], &mut k, c.style, &c.text)?;
            Ok(Some((xor(&f, &before), k)))
        };
        let (a, b) = match (run(c.a, c.fb)?, run(c.b, c.fb2)?) {
            (Some(a), Some(b)) => (a, b),
            _ => {
                o.excluded = Some("cursor would have a negative coordinate");
                return Ok(());
            }
        };
        let (dx, dy) = (c.b[0] as i64 - c.a[0] as i64, c.b[1] as i64 - c.a[1] as i64);
        let want = [(a.1[0] as i64 + dx) as usize, (a.1[1] as i64 + dy) as usize, a.1[2]];
        cur_diff(&format!("moved by {},{}", dx, dy), b.1, want)?;
        // Every inverted pixel is inside of the rectangles by C01; compare all of the screen anyway
        let mut moved = FbSpec::Zero.build();
        for (i, w) in a.0.iter().enumerate() {
            let mut w = *w;
            while w != 0 {
                let x = (i % WPL * 32) as i64 + w.trailing_zeros() as i64 + dx;
                let y = (i / WPL) as i64 + dy;
                w &= w - 1;
                if x < 0 || y < 0 || x >= 352 || y >= H as i64 {
                    return Err(format!("ink outside of the screen after moving by {},{}", dx, dy));
                }
                flip_px(&mut moved[..], x as usize, y as usize);
            }
        }
        fb_diff(&format!("moved by {},{}", dx, dy), &b.0[..], &moved[..])?;
        o.nontrivial = ink(&a.0[..]) > 0 && dx % 32 != 0;
        o.label_if(dx % 32 != 0, "other alignment");
        o.label_if(dy != 0, "other line");
        o.label_if(c.cur[0] < 0, "cursor left of the clip");
        Ok(())
    };
    let pp = p.clone();
    cx.prop("random", cx.n(120_000, 3_000_000), move || {
        let size = prop_oneof![
            3 => (1usize..W, 1usize..H),
            2 => (1usize..60, 1usize..60),
            3 => (100usize..330, 60usize..500),
        ];
        let cu = prop_oneof![
            3 => Just([0i64, 0i64]),
            4 => (0i64..336, 0i64..100).prop_map(|(x, y)| [x, y]),
            3 => (-40i64..336, -40i64..536).prop_map(|(x, y)| [x, y]),
        ];
        ((fb_spec(), fb_spec()), size, (0usize..10_000, 0usize..10_000), (0usize..10_000, 0usize..10_000), cu, line_height(), 0usize..3, text(&pp)).prop_map(|((fb, fb2), (w, h), a, b, cur, lh, style, text)| {
            let at = |p: (usize, usize)| [p.0 % (W - w + 1), p.1 % (H - h + 1)];
            MoveCase { fb, fb2, w, h, a: at(a), b: at(b), cur, lh, style, text }
        })
    }, check);
    // Every alignment of every size of glyph
    let mut cases = vec![];
    for (st, s) in representatives(&cx.fonts) {
        for n in 0..33 {
            cases.push(MoveCase { fb: FbSpec::Zero, fb2: FbSpec::Ones, w: 60, h: 60, a: [0, 0], b: [n + 32, n], cur: [3, 5], lh: 0, style: st, text: s.clone() });
        }
    }
    cx.each("every alignment", cases, check);
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SpellCase {
    fb: FbSpec,
    clip: Clip,
    cur: CurA,
    style: usize,
    one: Vec<String>,
    two: Vec<String>,
}

pub fn c11(cx: &Ctx) {
    cx.rule("a text painted in two spellings that differ only in composed or decomposed accented letters and in listed emoji aliases; non-trivial: the spellings differ and some pixel was inverted");
    let p = pool(cx);
    let check = |c: &SpellCase, o: &mut Obs| -> Res {
        let (t1, t2) = (c.one.concat(), c.two.concat());
        if cx.fonts.segment(&t1, style(c.style)).1.is_some() || cx.fonts.segment(&t2, style(c.style)).1.is_some() {
            o.excluded = Some(COLLISION);
            return Ok(());
        }
        let before = c.fb.build();
        let (mut a, mut b) = (before.clone(), before.clone());
        let (mut ka, mut kb) = (c.cur, c.cur);
        paint_lib(&mut a, c.clip, &mut ka, c.style, &t1)?;
        paint_lib(&mut b, c.clip, &mut kb, c.style, &t2)?;
        cur_diff("other spelling", kb, ka)?;
        fb_diff("other spelling", &b[..], &a[..])?;
        o.nontrivial = t1 != t2 && a != before;
        o.label_if(c.one.iter().zip(&c.two).any(|(a, b)| a != b && a.starts_with(|c: char| c < '\u{2000}')), "accented letters");
        o.label_if(c.one.iter().zip(&c.two).any(|(a, b)| a != b && a.starts_with(|c: char| c >= '\u{2000}')), "emoji aliases");
        Ok(())
    };
    // Groups of spellings
    let mut groups: Vec<Vec<String>> = vec![];
    let mut plain: Vec<String> = vec![];
    let indexed: HashSet<&String> = p.latin.iter().collect();
    for s in &p.latin {
        let nfd: String = s.nfd().collect();
        let nfc: String = s.nfc().collect();
        let marks_alone = s.chars().all(unicode_normalization::char::is_combining_mark);
        // Some characters (like the Angstrom sign) are only singletons of another one
        if nfd != *s && nfc == *s && nfd.chars().count() > 1 {
            groups.push(vec![s.clone(), nfd]);
        } else if !marks_alone && indexed.contains(s) {
            plain.push(s.clone());
        }
    }
    let latin_groups = groups.len();
    cx.note(format!("{} accented letters with a canonical decomposition", latin_groups));
    // Emoji aliases: transitively grouped by canonical cluster. Clusters that could merge
    // with a neighbour (modifiers, regional indicators, joiners) are left out.
    let joins = |s: &str| s.starts_with(|c: char| matches!(c, '\u{1F3FB}'..='\u{1F3FF}' | '\u{1F1E6}'..='\u{1F1FF}' | '\u{200D}' | '\u{FE0F}' | '\u{20E3}' | '\u{E0020}'..='\u{E007F}'));
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (canon, alias) in &cx.fonts.emoji.aliases {
        if !joins(canon) && !joins(alias) {
            m.entry(canon.clone()).or_insert_with(|| vec![canon.clone()]).push(alias.clone());
        }
    }
    groups.extend(m.into_values());
    let groups = Arc::new(groups);
    cx.note(format!("{} groups of emoji spellings", groups.len() - latin_groups));
    plain.extend(p.hanzi.iter().take(50).cloned());
    plain.extend(p.emoji1.iter().filter(|s| !joins(s)).cloned());
    // A plain character that starts a longer cluster would be fine too, but nothing here follows it
    let plain = Arc::new(plain);
    // Every group, every style
    let mut cases = vec![];
    for g in groups.iter() {
        for alias in &g[1..] {
            for st in 0..3 {
                for x in [8, 35] {
                    cases.push(SpellCase { fb: FbSpec::Zero, clip: [0, 0, W, H], cur: [x, 10, 0], style: st, one: vec![g[0].clone()], two: vec![alias.clone()] });
                }
                cases.push(SpellCase { fb: FbSpec::Zero, clip: [0, 0, W, H], cur: [8, 10, 0], style: st, one: vec!["a".into(), g[0].clone(), "b".into(), g[0].clone()], two: vec!["a".into(), alias.clone(), "b".into(), alias.clone()] });
            }
        }
    }
    cx.each("every alias", cases, check);
    cx.exhaustive("every accented letter with a canonical decomposition and every listed emoji alias, in every style");
    let (g, pl) = (groups.clone(), plain.clone());
    cx.prop("random", cx.n(100_000, 2_000_000), move || {
        let (g, pl) = (g.clone(), pl.clone());
        let item = prop_oneof![
            3 => (0..latin_groups, 0usize..8, 0usize..8).prop_map({ let g = g.clone(); move |(i, a, b)| (g[i][a % g[i].len()].clone(), g[i][b % g[i].len()].clone()) }),
            3 => (latin_groups..g.len(), 0usize..8, 0usize..8).prop_map({ let g = g.clone(); move |(i, a, b)| (g[i][a % g[i].len()].clone(), g[i][b % g[i].len()].clone()) }),
            2 => (0..pl.len()).prop_map({ let p = pl.clone(); move |i| (p[i].clone(), p[i].clone()) }),
            1 => Just((" ".to_string(), " ".to_string())),
            1 => Just(("\n".to_string(), "\n".to_string())),
        ];
        (fb_spec(), with_cursor(valid_clip()), 0usize..3, proptest::collection::vec(item, 0..24)).prop_map(|(fb, (clip, cur), style, items)| {
            let (one, two) = items.into_iter().unzip();
            SpellCase { fb, clip, cur, style, one, two }
        })
    }, check);
}

// ---------------------------------------------------------------- C12

pub fn c12(cx: &Ctx) {
    cx.rule("pictures (emoji, hanzi, newlines) painted in all three styles, and mixed text compared with glyphs of the style's own font; non-trivial: some pixel inverted, and for mixed text at least one Latin glyph next to emoji or hanzi");
    let p = pool(cx);
    let same = |c: &PaintCase, o: &mut Obs| -> Res {
        for st in 0..3 {
            let (segs, col) = cx.fonts.segment(&c.text, style(st));
            if col.is_some() {
                o.excluded = Some(COLLISION);
                return Ok(());
            }
            for s in segs {
                match s {
                    Seg::Newline | Seg::Glyph { font: FontId::Emoji, .. } | Seg::Glyph { font: FontId::Hanzi, .. } => {}
                    _ => {
                        o.excluded = Some("not only emoji and hanzi");
                        return Ok(());
                    }
                }
            }
        }
        let before = c.fb.build();
        let mut first: Option<(Fb, CurA)> = None;
        for st in 0..3 {
            let mut fb = before.clone();
            let mut k = c.cur;
            paint_lib(&mut fb, c.clip, &mut k, st, &c.text)?;
            match &first {
                None => {
                    o.nontrivial = fb != before;
                    first = Some((fb, k));
                }
                Some((f, fk)) => {
                    cur_diff(&format!("pictures in style {}", st), k, *fk)?;
                    fb_diff(&format!("pictures in style {}", st), &fb[..], &f[..])?;
                }
            }
        }
        Ok(())
    };
    let own = |c: &PaintCase, o: &mut Obs| -> Res {
        let (segs, col) = cx.fonts.segment(&c.text, style(c.style));
        if col.is_some() {
            o.excluded = Some(COLLISION);
            return Ok(());
        }
        let (placed, n) = against_model(cx, c, &segs)?;
        let lat = placed.iter().any(|p| p.fg.0 == style(c.style).latin());
        let pic = placed.iter().any(|p| p.fg.0 != style(c.style).latin());
        o.label(["small", "regular", "bold"][c.style]);
        seg_labels(cx, &c.text, &segs, o);
        o.nontrivial = n > 0 && lat && pic;
        Ok(())
    };
    let pp = p.clone();
    cx.prop("pictures", cx.n(60_000, 1_500_000), move || paint_case(with_cursor(any_clip()), pictures(&pp)), same);
    let pp = p.clone();
    cx.prop("mixed text", cx.n(80_000, 2_000_000), move || {
        let t = (latin_text(&pp), pictures(&pp), latin_text(&pp)).prop_map(|(a, b, c)| a + &b + &c).boxed();
        paint_case(with_cursor(valid_clip()), prop_oneof![t, text(&pp)].boxed())
    }, own);
    let mut cases = vec![];
    for s in p.emoji1.iter().chain(&p.emoji_n).chain(&p.hanzi) {
        cases.push(PaintCase { fb: FbSpec::Zero, clip: [0, 0, W, H], cur: [9, 9, 0], style: 0, text: s.clone() });
    }
    cx.each("every picture", cases, same);
    let mut cases = vec![];
    for s in p.latin.iter().chain(&p.nfd).chain(&p.bounds) {
        for st in 0..3 {
            cases.push(PaintCase { fb: FbSpec::Zero, clip: [0, 0, W, H], cur: [9, 9, 0], style: st, text: format!("😸{}鹅", s) });
            cases.push(PaintCase { fb: FbSpec::Zero, clip: [0, 0, W, H], cur: [9, 9, 0], style: st, text: s.clone() });
        }
    }
    cx.each("every latin cluster", cases, own);
}

// ---------------------------------------------------------------- C13

pub fn c13(cx: &Ctx) {
    use blitstr::{ClipRect, Cursor, GlyphStyle, Pt};
    cx.rule("constructors and conversions of the value types with generated numbers; non-trivial: the corners are not already in order, or a coordinate is 0 or over 2^16, or the style number is not 0, 1 or 2");
    let check = |c: &ValuesCase, o: &mut Obs| -> Res {
        let [a, b, d, e] = c.a;
        let bad = |what: &str, got: String, want: String| -> Res { Err(format!("{} of {:?}: {} should be {}", what, c.a, got, want)) };
        let r = imp(|| ClipRect::new(a, b, d, e))?;
        let want = [a.min(d), b.min(e), a.max(d), b.max(e)];
        if [r.min.x, r.min.y, r.max.x, r.max.y] != want {
            return bad("ClipRect::new", format!("{:?}", r), format!("{:?}", want));
        }
        for (i, q) in [(d, b, a, e), (a, e, d, b), (d, e, a, b)].iter().enumerate() {
            let s = imp(|| ClipRect::new(q.0, q.1, q.2, q.3))?;
            if s != r {
                return bad(&format!("ClipRect::new with corners mixed up ({})", i), format!("{:?}", s), format!("{:?}", r));
            }
        }
        let k = imp(|| Cursor::new(a, b, d))?;
        if [k.pt.x, k.pt.y, k.line_height] != [a, b, d] {
            return bad("Cursor::new", format!("{:?}", k), format!("{:?}", [a, b, d]));
        }
        // Also for rectangles that were not normalised
        for q in [r, ClipRect { min: Pt { x: a, y: b }, max: Pt { x: d, y: e } }] {
            let k = imp(|| Cursor::from_top_left_of(q))?;
            if [k.pt.x, k.pt.y, k.line_height] != [q.min.x, q.min.y, 0] {
                return bad("Cursor::from_top_left_of", format!("{:?}", k), format!("{:?}", q.min));
            }
        }
        let (p, q) = (imp(|| Pt::new(a, b))?, imp(|| Pt::new(d, e))?);
        if (p.x, p.y) != (a, b) {
            return bad("Pt::new", format!("{:?}", p), format!("{:?}", (a, b)));
        }
        let ord = imp(|| p.partial_cmp(&q))?;
        if ord != Some((a, b).cmp(&(d, e))) || (p == q) != ((a, b) == (d, e)) || (p < q) != ((a, b) < (d, e)) || (p >= q) != ((a, b) >= (d, e)) || (p <= q) != ((a, b) <= (d, e)) || (p > q) != ((a, b) > (d, e)) || (p != q) != ((a, b) != (d, e)) {
            return bad("Pt ordering", format!("{:?}", ord), format!("{:?}", (a, b).cmp(&(d, e))));
        }
        let (cr, cq) = (ClipRect { min: p, max: q }, ClipRect { min: q, max: p });
        if (cr == cq) != (p == q) {
            return bad("ClipRect equality", format!("{}", cr == cq), format!("{}", p == q));
        }
        if (Cursor { pt: p, line_height: c.n } == Cursor { pt: q, line_height: c.n }) != (p == q) {
            return bad("Cursor equality", format!("{}", p != q), format!("{}", p == q));
        }
        let g = imp(|| GlyphStyle::from(c.n))?;
        let want = match c.n {
            0 => GlyphStyle::Small,
            2 => GlyphStyle::Bold,
            _ => GlyphStyle::Regular,
        };
        if g != want {
            return Err(format!("GlyphStyle::from({}) is {:?}, should be {:?}", c.n, g, want));
        }
        let back: usize = imp(|| g.into())?;
        let nb = if c.n <= 2 { c.n } else { 1 };
        if back != nb || g as usize != nb {
            return Err(format!("GlyphStyle::from({}) converts back to {}, should be {}", c.n, back, nb));
        }
        o.label_if(a > d, "x out of order");
        o.label_if(b > e, "y out of order");
        o.label_if(a == d || b == e, "equal coordinates");
        o.label_if(c.n > 2, "style out of range");
        o.nontrivial = a > d || b > e || c.n > 2 || c.a.iter().any(|v| *v == 0 || *v > 65536);
        Ok(())
    };
    let num = || prop_oneof![3 => extreme(), 1 => 0usize..4, 1 => any::<usize>(), 1 => (0u32..64, 0usize..3).prop_map(|(s, d)| (1usize << s).wrapping_add(d).wrapping_sub(1))];
    cx.prop("random", cx.n(200_000, 4_000_000), move || {
        (num(), num(), num(), num(), num(), 0u8..8).prop_map(|(a, b, c, d, n, same)| ValuesCase { a: [a, b, if same & 1 == 1 { a } else { c }, if same == 2 { b } else { d }], n })
    }, check);
    let mut cases = vec![];
    for n in 0..70_000usize {
        cases.push(ValuesCase { a: [n, 0, 5, n % 7], n });
    }
    for s in 0..64 {
        for d in [0usize, 1, 2, 3, 4] {
            cases.push(ValuesCase { a: [d, 1 << s, d + (1 << s.min(62)), 9], n: (1usize << s).wrapping_add(d) });
            cases.push(ValuesCase { a: [d, 1 << s, 0, 9], n: usize::MAX - d });
        }
    }
    cx.each("style numbers", cases, check);
    let small = [0usize, 1, 2, W, H, usize::MAX];
    let mut cases = vec![];
    for a in small {
        for b in small {
            for c in small {
                for d in small {
                    cases.push(ValuesCase { a: [a, b, c, d], n: a });
                }
            }
        }
    }
    cx.each("corner grid", cases, check);
}

// ---------------------------------------------------------------- C14

pub fn c14(cx: &Ctx) {
    cx.rule("a text painted cluster by cluster, recording the ink and the cursor around each; non-trivial: at least 2 glyphs with visible ink");
    let p = pool(cx);
    let check = |c: &PaintCase, o: &mut Obs| -> Res {
        let (segs, col) = cx.fonts.segment(&c.text, style(c.style));
        if col.is_some() {
            o.excluded = Some(COLLISION);
            return Ok(());
        }
        let mut all = FbSpec::Zero.build();
        let zero = FbSpec::Zero.build();
        let mut k = c.cur;
        let mut i = 0;
        let mut inked = 0;
        let mut lines = 0;
        // Lowest ink of the current line
        let mut line_bottom = 0usize;
        for s in &segs {
            let part = &c.text[i..i + s.len()];
            i += s.len();
            let before = k;
            let mut fb = zero.clone();
            paint_lib(&mut fb, c.clip, &mut k, c.style, part)?;
            let new_line = k[1] != before[1];
            if new_line {
                lines += 1;
                if line_bottom > k[1] {
                    return Err(format!("{:?}: ink down to y={} reaches into the next line at y={}", part, line_bottom - 1, k[1]));
                }
                line_bottom = 0;
            }
            if let Some((x0, y0, x1, y1)) = bbox(&fb[..]) {
                inked += 1;
                let start = if new_line { c.clip[0] } else { before[0].max(c.clip[0]) };
                if x0 < start || x1 > k[0] {
                    return Err(format!("{:?}: ink x={}..{} is not between the cursors x={} and x={}", part, x0, x1, start, k[0]));
                }
                if y0 < k[1] || y1 > k[1] + k[2] {
                    return Err(format!("{:?}: ink y={}..{} is not within the line y={} of height {}", part, y0, y1, k[1], k[2]));
                }
                line_bottom = line_bottom.max(y1);
                for (a, f) in all.iter_mut().zip(fb.iter()) {
                    if *a & *f != 0 {
                        return Err(format!("{:?} overlaps an earlier glyph", part));
                    }
                    *a |= *f;
                }
            }
        }
        // The same as one call: overlapping ink would cancel out
        let mut one = zero.clone();
        let mut k1 = c.cur;
        paint_lib(&mut one, c.clip, &mut k1, c.style, &c.text)?;
        fb_diff("ink of the whole text against the union of the glyphs", &one[..], &all[..])?;
        // Height hint: a line of Latin text
        let hint = imp(|| blitstr::glyph_to_height_hint(lib_style(c.style)))?;
        if c.cur[2] == 0 && lines == 0 && !segs.is_empty() && segs.iter().all(|s| matches!(s.font_glyph(), Some((f, _)) if f == style(c.style).latin())) {
            o.label("height hint");
            if k[2] != hint {
                return Err(format!("the line height is {}, the hint for style {} is {}", k[2], c.style, hint));
            }
        }
        o.label_if(lines > 0, "several lines");
        o.nontrivial = inked >= 2;
        Ok(())
    };
    let pp = p.clone();
    cx.prop("random", cx.n(60_000, 1_500_000), move || paint_case(with_cursor(valid_clip()), text(&pp)), check);
    let pp = p.clone();
    cx.prop("latin lines", cx.n(30_000, 600_000), move || {
        paint_case((Just([0, 0, W, H]), (0usize..120, 0usize..500).prop_map(|(x, y)| [x, y, 0])).boxed(), latin_text(&pp))
    }, check);
    let mut cases = vec![];
    for (i, s) in p.latin.iter().chain(&p.nfd).chain(&p.emoji1).chain(&p.emoji_n).chain(&p.hanzi).enumerate() {
        for st in 0..3 {
            cases.push(PaintCase { fb: FbSpec::Zero, clip: [0, 0, W, H], cur: [i % 40, i % 500, 0], style: st, text: format!("{}{}\n{}", s, s, s) });
            cases.push(PaintCase { fb: FbSpec::Zero, clip: [0, 0, W, H], cur: [i % 40, i % 500, 0], style: st, text: s.clone() });
        }
    }
    cx.each("every cluster twice", cases, check);
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Clear { fb: u8, clip: Clip },
    Paint { fb: u8, cur: u8, clip: Clip, style: usize, text: String },
    SetCursor { cur: u8, to: CurA },
    TopLeft { cur: u8, clip: Clip },
    Demo { fb: u8, which: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HistoryCase {
    fbs: Vec<FbSpec>,
    ops: Vec<Op>,
}

const NFB: usize = 3;
const NCUR: usize = 3;

/// Reference for paint_str and for the demo screens with any clip rectangle
pub fn model_paint(fonts: &Fonts, fb: &mut [u32], clip: Clip, c: &mut CurA, st: usize, text: &str) -> Option<()> {
    let r = rect(clip);
    let (segs, col) = fonts.segment(text, style(st));
    if col.is_some() {
        return None;
    }
    let mut k = cur(*c);
    if r.x1 > W || r.y1 > H || r.x0 >= r.x1 {
        // Nothing can be painted and the text does not advance; newlines before the
        // first character still move the cursor
        for s in &segs {
            if *s != Seg::Newline {
                break;
            }
            step(fonts, fb, r, &mut k, s);
        }
    } else {
        paint(fonts, fb, r, &mut k, &segs);
    }
    *c = as_cur_a(k);
    Some(())
}

fn run_history(cx: &Ctx, c: &HistoryCase, o: &mut Obs) -> Res {
    let mut fbs: Vec<Fb> = (0..NFB).map(|i| c.fbs[i % c.fbs.len()].build()).collect();
    let mut mfbs = fbs.clone();
    let mut curs = [[0usize; 3]; NCUR];
    let mut paints = 0;
    let mut used = HashSet::new();
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            Op::Clear { fb, clip } => {
                let n = *fb as usize % NFB;
                clear_lib(&mut fbs[n], *clip)?;
                clear(&mut mfbs[n][..], rect(*clip));
                fb_diff(&format!("op {} (clear)", i), &fbs[n][..], &mfbs[n][..])?;
            }
            Op::Paint { fb, cur: k, clip, style: st, text } => {
                let n = *fb as usize % NFB;
                let kk = *k as usize % NCUR;
                let mut want = curs[kk];
                let r = rect(*clip);
                let stalls = r.x1 > W || r.y1 > H || r.x0 >= r.x1;
                if model_paint(&cx.fonts, &mut mfbs[n][..], *clip, &mut want, *st, text).is_none() {
                    o.excluded = Some(COLLISION);
                    return Ok(());
                }
                paint_lib(&mut fbs[n], *clip, &mut curs[kk], *st, text)?;
                if stalls {
                    // Only the pixels are specified (C01); go on from wherever the cursor is
                    o.label("not drawable");
                } else {
                    cur_diff(&format!("op {} (paint)", i), curs[kk], want)?;
                }
                fb_diff(&format!("op {} (paint)", i), &fbs[n][..], &mfbs[n][..])?;
                paints += 1;
                used.insert(n);
            }
            Op::SetCursor { cur: k, to } => curs[*k as usize % NCUR] = *to,
            Op::TopLeft { cur: k, clip } => {
                let cu = imp(|| blitstr::Cursor::from_top_left_of(lib_clip(*clip)))?;
                curs[*k as usize % NCUR] = [cu.pt.x, cu.pt.y, cu.line_height];
            }
            Op::Demo { fb, which } => {
                // What the demos paint is fixed by the first run on a blank buffer
                let n = *fb as usize % NFB;
                demo(&mut fbs[n], *which)?;
                mfbs[n] = fbs[n].clone();
            }
        }
        // Nothing else may change
        for n in 0..NFB {
            fb_diff(&format!("op {} (frame buffer {})", i, n), &fbs[n][..], &mfbs[n][..])?;
        }
    }
    o.label_if(used.len() > 1, "several frame buffers");
    o.nontrivial = paints >= 2;
    Ok(())
}

pub fn demo(fb: &mut Fb, which: u8) -> Res {
    imp(|| match which % 3 {
        0 => blitstr::demo::sample_text(fb),
        1 => blitstr::demo::short_greeting(fb),
        _ => blitstr::demo::goose_poem(fb),
    })
}

fn any_cursor() -> BoxedStrategy<CurA> {
    prop_oneof![6 => (0usize..W, 0usize..H, line_height()).prop_map(|(x, y, l)| [x, y, l]), 1 => extreme_cursor()].boxed()
}

pub fn op(p: &Arc<Pool>) -> BoxedStrategy<Op> {
    let t = prop_oneof![3 => proptest::collection::vec(atom(p), 0..10).prop_map(join), 1 => text(p)].boxed();
    prop_oneof![
        2 => (any::<u8>(), any_clip()).prop_map(|(fb, clip)| Op::Clear { fb, clip }),
        8 => (any::<u8>(), any::<u8>(), any_clip(), 0usize..3, t).prop_map(|(fb, cur, clip, style, text)| Op::Paint { fb, cur, clip, style, text }),
        3 => (any::<u8>(), any_cursor()).prop_map(|(cur, to)| Op::SetCursor { cur, to }),
        2 => (any::<u8>(), valid_clip()).prop_map(|(cur, clip)| Op::TopLeft { cur, clip }),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(fb, which)| Op::Demo { fb, which }),
    ]
    .boxed()
}

fn history(p: &Arc<Pool>, n: std::ops::Range<usize>) -> BoxedStrategy<HistoryCase> {
    (proptest::collection::vec(fb_spec(), NFB..NFB + 1), proptest::collection::vec(op(p), n)).prop_map(|(fbs, ops)| HistoryCase { fbs, ops }).boxed()
}

pub fn c15(cx: &Ctx) {
    cx.rule("a history of clear_region, paint_str, cursor and demo calls on 3 frame buffers and 3 cursors, compared after every call with a reference renderer that sees only that call's arguments; also 4 such histories at the same time on 4 threads; non-trivial: at least 2 paint_str calls in the history");
    let p = pool(cx);
    let pp = p.clone();
    cx.prop("history", cx.n(20_000, 500_000), move || history(&pp, 1..24), |c, o| run_history(cx, c, o));
    let pp = p.clone();
    cx.prop("long history", cx.n(600, 15_000), move || history(&pp, 60..200), |c, o| run_history(cx, c, o));
    let pp = p.clone();
    cx.prop("threads", cx.n(1_500, 40_000), move || proptest::collection::vec(history(&pp, 2..12), 4..5), |c: &Vec<HistoryCase>, o| {
        let barrier = std::sync::Barrier::new(c.len());
        let rs: Vec<(Res, bool, Option<&'static str>)> = std::thread::scope(|s| {
            let hs: Vec<_> = c
                .iter()
                .map(|h| {
                    let b = &barrier;
                    s.spawn(move || {
                        b.wait();
                        let mut oo = Obs::default();
                        let r = run_history(cx, h, &mut oo);
                        (r, oo.nontrivial, oo.excluded)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("history thread")).collect()
        });
        o.nontrivial = rs.iter().filter(|r| r.1).count() >= 2;
        for r in rs {
            if r.2.is_some() {
                o.excluded = r.2;
            }
            r.0.map_err(|e| format!("in a concurrent history: {}", e))?;
        }
        Ok(())
    });
    let pp = p.clone();
    cx.prop("same call twice", cx.n(30_000, 800_000), move || (paint_case(with_cursor(any_clip()), text(&pp)), proptest::collection::vec(op(&pp), 1..4)), |(a, ops), o: &mut Obs| {
        let run = || -> Result<(Fb, CurA), String> {
            let mut fb = a.fb.build();
            let mut k = a.cur;
            paint_lib(&mut fb, a.clip, &mut k, a.style, &a.text)?;
            Ok((fb, k))
        };
        let one = run()?;
        run_history(cx, &HistoryCase { fbs: vec![a.fb], ops: ops.clone() }, &mut Obs::default())?;
        let two = run()?;
        cur_diff("the same call after other calls", two.1, one.1)?;
        fb_diff("the same call after other calls", &two.0[..], &one.0[..])?;
        o.nontrivial = one.0 != a.fb.build();
        Ok(())
    });
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DemoCase {
    fb: FbSpec,
    before: Vec<Op>,
    demos: Vec<u8>,
}

pub fn c22(cx: &Ctx) {
    cx.rule("demo painters in any order on any prior frame buffer content and after any history; non-trivial: at least 2 demo screens, or a history before them");
    let p = pool(cx);
    let check = |c: &DemoCase, o: &mut Obs| -> Res {
        let screen = mask(Rect { x0: 0, y0: 0, x1: W, y1: H });
        let mut want: Vec<Fb> = vec![];
        for d in 0..3 {
            let mut fb = FbSpec::Zero.build();
            demo(&mut fb, d)?;
            want.push(fb);
        }
        let mut fb = c.fb.build();
        let mut k = [0usize; 3];
        for op in &c.before {
            match op {
                Op::Clear { clip, .. } => clear_lib(&mut fb, *clip)?,
                Op::Paint { clip, style, text, .. } => paint_lib(&mut fb, *clip, &mut k, *style, text)?,
                Op::SetCursor { to, .. } => k = *to,
                Op::TopLeft { clip, .. } => k = [clip[0], clip[1], 0],
                Op::Demo { which, .. } => demo(&mut fb, *which)?,
            }
        }
        for (n, d) in c.demos.iter().enumerate() {
            let before = fb.clone();
            demo(&mut fb, *d)?;
            let mut w = want[*d as usize % 3].clone();
            for i in 0..FB_WORDS {
                w[i] = (w[i] & screen[i]) | (before[i] & !screen[i]);
            }
            fb_diff(&format!("demo {} ({})", n, d % 3), &fb[..], &w[..])?;
        }
        o.nontrivial = c.demos.len() >= 2 || !c.before.is_empty() && !c.demos.is_empty();
        Ok(())
    };
    let pp = p.clone();
    cx.prop("random", cx.n(8_000, 150_000), move || {
        (fb_spec(), proptest::collection::vec(op(&pp), 0..6), proptest::collection::vec(0u8..3, 1..5)).prop_map(|(fb, before, demos)| DemoCase { fb, before, demos })
    }, check);
    // Single pixels: every one of a line, and columns
    let mut cases = vec![];
    for s in 0..60u64 {
        for d in 0..3u8 {
            cases.push(DemoCase { fb: FbSpec::Seed(s), before: vec![], demos: vec![d, (d + 1) % 3, d] });
        }
    }
    cx.each("backgrounds", cases, check);
}
