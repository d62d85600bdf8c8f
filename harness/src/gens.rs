//! Generators: frame buffers, clip rectangles, cursors, styles and texts

use crate::oracle::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

pub type Fb = Box<[u32; FB_WORDS]>;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum FbSpec {
    Zero,
    Ones,
    Stripes,
    Seed(u64),
}

impl FbSpec {
    pub fn build(self) -> Fb {
        let mut v = Box::new([0u32; FB_WORDS]);
        match self {
            FbSpec::Zero => {}
            FbSpec::Ones => v.fill(0xffff_ffff),
            FbSpec::Stripes => v.fill(0xffff_0000),
            FbSpec::Seed(s) => {
                let mut z = s;
                for w in v.iter_mut() {
                    // splitmix64
                    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
                    let mut a = z;
                    a = (a ^ (a >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                    a = (a ^ (a >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                    *w = (a ^ (a >> 31)) as u32;
                }
            }
        }
        v
    }
}

pub fn fb_spec() -> BoxedStrategy<FbSpec> {
    prop_oneof![
        2 => Just(FbSpec::Zero),
        1 => Just(FbSpec::Ones),
        1 => Just(FbSpec::Stripes),
        4 => any::<u64>().prop_map(FbSpec::Seed),
    ]
    .boxed()
}

/// x0, y0, x1, y1
pub type Clip = [usize; 4];
/// x, y, line height
pub type CurA = [usize; 3];

pub fn rect(c: Clip) -> Rect {
    Rect { x0: c[0], y0: c[1], x1: c[2], y1: c[3] }
}

pub fn cur(c: CurA) -> Cur {
    Cur { x: c[0], y: c[1], lh: c[2] }
}

/// One side of a rectangle within 0..=max: two different sorted numbers
fn span(max: usize) -> BoxedStrategy<(usize, usize)> {
    (0..max, 0..max)
        .prop_map(move |(a, b)| {
            let (a, b) = (a.min(b), a.max(b));
            (a, b + 1)
        })
        .boxed()
}

fn narrow(max: usize, most: usize) -> BoxedStrategy<(usize, usize)> {
    (0..max, 1..=most).prop_map(move |(a, n)| (a, (a + n).min(max))).boxed()
}

fn x_span() -> BoxedStrategy<(usize, usize)> {
    prop_oneof![
        3 => Just((0, W)),
        2 => Just((6, W - 6)),
        4 => span(W),
        3 => narrow(W, 40),
        2 => narrow(W, 140),
        // word boundaries, give or take one
        2 => (0usize..11, 0usize..12, 0usize..3, 0usize..3).prop_map(|(a, b, i, j)| {
            let (a, b) = (a.min(b), a.max(b).max(a.min(b) + 1));
            let lo = (a * 32 + i).saturating_sub(1).min(W - 1);
            let hi = (b * 32 + j).saturating_sub(1).clamp(lo + 1, W);
            (lo, hi)
        }),
        2 => narrow(W, 120).prop_map(|(a, b)| (W - b, W - a)),
        1 => (0usize..200).prop_map(|a| (a, W)),
    ]
    .boxed()
}

fn y_span() -> BoxedStrategy<(usize, usize)> {
    prop_oneof![
        4 => Just((0, H)),
        2 => Just((6, H - 6)),
        4 => span(H),
        3 => narrow(H, 40),
        3 => narrow(H, 120),
        2 => narrow(H, 120).prop_map(|(a, b)| (H - b, H - a)),
    ]
    .boxed()
}

/// On the screen and not empty
pub fn valid_clip() -> BoxedStrategy<Clip> {
    (x_span(), y_span()).prop_map(|((x0, x1), (y0, y1))| [x0, y0, x1, y1]).boxed()
}

pub fn extreme() -> BoxedStrategy<usize> {
    prop_oneof![
        3 => 0usize..40,
        2 => (W - 40)..(W + 40),
        2 => (H - 40)..(H + 60),
        1 => Just(0usize),
        1 => (0usize..200).prop_map(|n| usize::MAX - n),
        1 => (0usize..200).prop_map(|n| (u32::MAX as usize) - 100 + n),
        1 => (0usize..200).prop_map(|n| (i32::MAX as usize) - 100 + n),
        1 => (0usize..200).prop_map(|n| (isize::MAX as usize) - 100 + n),
        1 => any::<usize>(),
        1 => 0usize..2000,
    ]
    .boxed()
}

/// Empty, inverted, off the screen or extreme
pub fn odd_clip() -> BoxedStrategy<Clip> {
    prop_oneof![
        // One edge of a good rectangle moved to somewhere strange
        4 => (valid_clip(), 0usize..4, extreme()).prop_map(|(mut c, i, v)| {
            c[i] = v;
            c
        }),
        // Just off the screen
        2 => (valid_clip(), 1usize..40, any::<bool>()).prop_map(|(mut c, n, xy)| {
            if xy { c[2] = W + n } else { c[3] = H + n }
            c
        }),
        // Empty
        2 => (valid_clip(), any::<bool>()).prop_map(|(mut c, xy)| {
            if xy { c[2] = c[0] } else { c[3] = c[1] }
            c
        }),
        // Inverted
        2 => (valid_clip(), 0usize..3).prop_map(|(c, k)| match k {
            0 => [c[2], c[1], c[0], c[3]],
            1 => [c[0], c[3], c[2], c[1]],
            _ => [c[2], c[3], c[0], c[1]],
        }),
        1 => (extreme(), extreme(), extreme(), extreme()).prop_map(|(a, b, c, d)| [a, b, c, d]),
    ]
    .boxed()
}

pub fn any_clip() -> BoxedStrategy<Clip> {
    prop_oneof![6 => valid_clip(), 2 => odd_clip()].boxed()
}

pub fn line_height() -> BoxedStrategy<usize> {
    prop_oneof![
        4 => Just(0usize),
        2 => prop_oneof![Just(24usize), Just(30), Just(32)],
        2 => 0usize..40,
        1 => 0usize..600,
    ]
    .boxed()
}

/// A cursor somewhere in, at, near or far from the rectangle
pub fn near_cursor(clip: Clip, kx: u8, ky: u8, a: usize, b: usize, lh: usize) -> CurA {
    let at = |lo: usize, hi: usize, k: u8, r: usize| -> usize {
        let hi = hi.max(lo);
        let n = hi - lo;
        match k {
            0 => lo,
            1 | 2 => lo.saturating_add(if n > 0 { r % n } else { 0 }),
            3 => lo.saturating_sub(r % 48),
            4 => hi.saturating_sub(r % 48),
            5 => hi.saturating_add(r % 48),
            6 => r % 700,
            7 => lo.saturating_add(r % 16),
            _ => lo,
        }
    };
    [at(clip[0], clip[2], kx, a), at(clip[1], clip[3], ky, b), lh]
}

pub fn with_cursor(clips: BoxedStrategy<Clip>) -> BoxedStrategy<(Clip, CurA)> {
    (clips, 0u8..10, 0u8..10, 0usize..4096, 0usize..4096, line_height())
        .prop_map(|(c, kx, ky, a, b, lh)| (c, near_cursor(c, kx, ky, a, b, lh)))
        .boxed()
}

pub fn extreme_cursor() -> BoxedStrategy<CurA> {
    (extreme(), extreme(), prop_oneof![line_height(), extreme()]).prop_map(|(x, y, l)| [x, y, l]).boxed()
}

/// Clusters to make text from
pub struct Pool {
    pub ascii: Vec<String>,
    pub latin: Vec<String>,
    pub nfd: Vec<String>,
    pub emoji1: Vec<String>,
    pub emoji_n: Vec<String>,
    pub hanzi: Vec<String>,
    pub prefixes: Vec<String>,
    pub parts: Vec<String>,
    pub bounds: Vec<String>,
}

pub fn all_strings(f: &Font) -> Vec<String> {
    f.entries.iter().map(|e| e.0.clone()).collect()
}

impl Pool {
    pub fn new(fonts: &Fonts) -> Pool {
        let nch = |s: &String| s.chars().count();
        let mut latin = all_strings(&fonts.regular);
        latin.extend(all_strings(&fonts.bold));
        latin.extend(all_strings(&fonts.small));
        latin.sort();
        latin.dedup();
        let emoji = all_strings(&fonts.emoji);
        let mut prefixes: Vec<String> = vec![];
        let mut parts: Vec<String> = vec![];
        for s in emoji.iter().chain(latin.iter()) {
            let cs: Vec<char> = s.chars().collect();
            for k in 1..cs.len() {
                prefixes.push(cs[..k].iter().collect());
            }
            if cs.len() > 1 {
                parts.extend(cs.iter().map(|c| c.to_string()));
            }
        }
        parts.extend(["\u{200D}", "\u{FE0F}", "\u{FE0E}", "\u{20E3}", "\u{1F3FB}", "\u{1F3FF}", "\u{E0067}", "\u{E007F}"].iter().map(|s| s.to_string()));
        prefixes.sort();
        prefixes.dedup();
        parts.sort();
        parts.dedup();
        let mut bounds = vec![];
        for (l, h) in BLOCKS {
            for c in [l.wrapping_sub(1), *l, *l + 1, h - 1, *h, *h + 1] {
                if let Some(c) = char::from_u32(c) {
                    bounds.push(c.to_string());
                }
            }
        }
        bounds.sort();
        bounds.dedup();
        Pool {
            ascii: (0x20u8..0x7f).map(|c| (c as char).to_string()).collect(),
            nfd: latin.iter().filter(|s| nch(s) > 1).cloned().collect(),
            latin: latin.iter().filter(|s| nch(s) == 1).cloned().collect(),
            emoji1: emoji.iter().filter(|s| nch(s) == 1).cloned().collect(),
            emoji_n: emoji.iter().filter(|s| nch(s) > 1).cloned().collect(),
            hanzi: all_strings(&fonts.hanzi),
            prefixes,
            parts,
            bounds,
        }
    }
}

fn pick(p: &Arc<Pool>, f: fn(&Pool) -> &Vec<String>) -> BoxedStrategy<String> {
    let n = f(p).len();
    let p = p.clone();
    (0..n).prop_map(move |i| f(&p)[i].clone()).boxed()
}

/// One building block of text
pub fn atom(p: &Arc<Pool>) -> BoxedStrategy<String> {
    prop_oneof![
        24 => pick(p, |p| &p.ascii),
        5 => Just(" ".to_string()),
        6 => Just("\n".to_string()),
        8 => pick(p, |p| &p.latin),
        7 => pick(p, |p| &p.nfd),
        8 => pick(p, |p| &p.emoji1),
        9 => pick(p, |p| &p.emoji_n),
        9 => pick(p, |p| &p.hanzi),
        4 => pick(p, |p| &p.prefixes),
        3 => (pick(p, |p| &p.emoji_n), pick(p, |p| &p.parts)).prop_map(|(a, b)| a + &b),
        3 => (pick(p, |p| &p.emoji1), pick(p, |p| &p.parts)).prop_map(|(a, b)| a + &b),
        4 => pick(p, |p| &p.parts),
        3 => pick(p, |p| &p.bounds),
        1 => (0u32..26, 0u32..26).prop_map(|(a, b)| [a, b].iter().map(|n| char::from_u32(0x1F1E6 + n).unwrap()).collect()),
        1 => prop_oneof![Just("\t"), Just("\r"), Just("\u{0}"), Just("\u{7f}"), Just("\r\n"), Just("\u{FFFD}"), Just("\u{FEFF}")].prop_map(|s| s.to_string()),
        3 => any::<char>().prop_map(|c| c.to_string()),
    ]
    .boxed()
}

pub fn join(v: Vec<String>) -> String {
    v.concat()
}

pub fn atoms_of(a: BoxedStrategy<String>) -> BoxedStrategy<Vec<String>> {
    prop_oneof![
        3 => proptest::collection::vec(a.clone(), 0..5),
        4 => proptest::collection::vec(a.clone(), 0..14),
        3 => proptest::collection::vec(a.clone(), 0..45),
        1 => proptest::collection::vec(a, 0..180),
    ]
    .boxed()
}

pub fn text(p: &Arc<Pool>) -> BoxedStrategy<String> {
    atoms_of(atom(p)).prop_map(join).boxed()
}

/// Text without emoji and hanzi
pub fn latin_text(p: &Arc<Pool>) -> BoxedStrategy<String> {
    let a = prop_oneof![
        8 => pick(p, |p| &p.ascii),
        2 => Just("\n".to_string()),
        4 => pick(p, |p| &p.latin),
        4 => pick(p, |p| &p.nfd),
        1 => Just("\u{30C}".to_string()),
        1 => Just("\u{ABCD}".to_string()),
    ]
    .boxed();
    atoms_of(a).prop_map(join).boxed()
}

/// Text of emoji, hanzi and newlines
pub fn pictures(p: &Arc<Pool>) -> BoxedStrategy<String> {
    let a = prop_oneof![
        4 => pick(p, |p| &p.emoji1),
        4 => pick(p, |p| &p.emoji_n),
        4 => pick(p, |p| &p.hanzi),
        1 => Just("\n".to_string()),
    ]
    .boxed();
    atoms_of(a).prop_map(join).boxed()
}

/// Arguments of one paint_str call
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PaintCase {
    pub fb: FbSpec,
    pub clip: Clip,
    pub cur: CurA,
    pub style: usize,
    pub text: String,
}

pub fn paint_case(cc: BoxedStrategy<(Clip, CurA)>, text: BoxedStrategy<String>) -> BoxedStrategy<PaintCase> {
    (fb_spec(), cc, 0usize..3, text)
        .prop_map(|(fb, (clip, cur), style, text)| PaintCase { fb, clip, cur, style, text })
        .boxed()
}
