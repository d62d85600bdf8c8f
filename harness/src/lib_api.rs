//! Calls into the library under test, and comparison of what they leave behind

use crate::engine::imp;
use crate::gens::*;
use crate::oracle::*;
use blitstr::{ClipRect, Cursor, GlyphStyle, Pt};

pub fn lib_clip(c: Clip) -> ClipRect {
    ClipRect { min: Pt { x: c[0], y: c[1] }, max: Pt { x: c[2], y: c[3] } }
}

pub fn lib_style(n: usize) -> GlyphStyle {
    match n {
        0 => GlyphStyle::Small,
        1 => GlyphStyle::Regular,
        _ => GlyphStyle::Bold,
    }
}

pub fn style(n: usize) -> Style {
    STYLES[n.min(2)]
}

/// paint_str of the library under test
pub fn paint_lib(fb: &mut Fb, clip: Clip, c: &mut CurA, st: usize, s: &str) -> Result<(), String> {
    let mut lc = Cursor { pt: Pt { x: c[0], y: c[1] }, line_height: c[2] };
    imp(|| blitstr::paint_str(fb, lib_clip(clip), &mut lc, lib_style(st), s))?;
    *c = [lc.pt.x, lc.pt.y, lc.line_height];
    Ok(())
}

pub fn clear_lib(fb: &mut Fb, clip: Clip) -> Result<(), String> {
    imp(|| blitstr::clear_region(fb, lib_clip(clip)))
}

pub fn as_cur_a(c: Cur) -> CurA {
    [c.x, c.y, c.lh]
}

/// Explain the first difference between two frame buffers
pub fn fb_diff(what: &str, got: &[u32], want: &[u32]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let n: u32 = got.iter().zip(want).map(|(a, b)| (a ^ b).count_ones()).sum();
    for i in 0..FB_WORDS {
        let d = got[i] ^ want[i];
        if d != 0 {
            let b = d.trailing_zeros() as usize;
            return Err(format!(
                "{}: {} pixels differ, the first at x={} y={} (is {}, should be {})",
                what,
                n,
                i % WPL * 32 + b,
                i / WPL,
                (got[i] >> b) & 1,
                (want[i] >> b) & 1
            ));
        }
    }
    Ok(())
}

pub fn cur_diff(what: &str, got: CurA, want: CurA) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: the cursor is x={} y={} line_height={}, should be x={} y={} line_height={}", what, got[0], got[1], got[2], want[0], want[1], want[2]))
    }
}

pub fn xor(a: &Fb, b: &Fb) -> Fb {
    let mut r = a.clone();
    for (x, y) in r.iter_mut().zip(b.iter()) {
        *x ^= *y;
    }
    r
}

pub fn ink(a: &[u32]) -> u32 {
    a.iter().map(|w| w.count_ones()).sum()
}

/// Bounding box of the set bits (hidden padding bits included): x0, y0, x1, y1 (exclusive)
pub fn bbox(a: &[u32]) -> Option<(usize, usize, usize, usize)> {
    let mut r: Option<(usize, usize, usize, usize)> = None;
    for (i, w) in a.iter().enumerate() {
        if *w != 0 {
            let y = i / WPL;
            let lo = i % WPL * 32 + w.trailing_zeros() as usize;
            let hi = i % WPL * 32 + 32 - w.leading_zeros() as usize;
            r = Some(match r {
                None => (lo, y, hi, y + 1),
                Some((a, b, c, _)) => (a.min(lo), b, c.max(hi), y + 1),
            });
        }
    }
    r
}
