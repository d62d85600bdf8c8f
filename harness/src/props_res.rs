//! C28: what drawing needs besides the frame buffer: no heap, little stack.

use crate::engine::*;
use crate::gens::*;
use crate::lib_api::*;
use proptest::strategy::BoxedStrategy;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::Arc;

/// The system's allocator, counting the requests of each thread
pub struct Counting;
thread_local! {
    static REQUESTS: Cell<u64> = const { Cell::new(0) };
}
fn count() {
    let _ = REQUESTS.try_with(|n| n.set(n.get() + 1));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count();
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count();
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;

/// How far down the stack is looked at, and what a call may use of it
const DEPTH: usize = 256 * 1024;
const LIMIT: usize = 16 * 1024;
const PATTERN: u64 = 0xa5c3_96e1_5a3c_691e;

/// Call f; how many bytes of stack it used, how often it asked for memory
#[inline(never)]
fn needs(f: &mut dyn FnMut()) -> (usize, u64) {
    let here = 0u64;
    let top = std::hint::black_box(&here) as *const u64 as usize & !15;
    let bottom = top - DEPTH;
    // The stack below this frame is not in use (nothing is called here), and it is
    // mapped: every thread of the harness has at least 2 MiB
    let mut p = bottom;
    while p < top - 1024 {
        unsafe { std::ptr::write_volatile(p as *mut u64, PATTERN) };
        p += 8;
    }
    let before = REQUESTS.with(|n| n.get());
    f();
    let requests = REQUESTS.with(|n| n.get()) - before;
    let mut p = bottom;
    while p < top - 1024 && unsafe { std::ptr::read_volatile(p as *const u64) } == PATTERN {
        p += 8;
    }
    (top - p, requests)
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Op {
    Paint,
    Clear,
    Demo(u8),
    Values,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NeedsCase {
    pub op: Op,
    pub fb: FbSpec,
    pub clip: Clip,
    pub cur: CurA,
    pub style: usize,
    /// The text is the unit so many times
    pub unit: String,
    pub times: usize,
}

pub fn c28(cx: &Ctx) {
    cx.rule("paint_str calls with texts of up to a million code points, clear_region calls, demo screens and constructors, each call with the heap requests of its thread counted and the stack below it filled with a pattern: no request, and less than 16 KiB of stack, however long the text; non-trivial: a text of at least 1000 code points, or something drawn or cleared");
    let p = Arc::new(Pool::new(&cx.fonts));
    let most = std::sync::atomic::AtomicUsize::new(0);
    let check = |c: &NeedsCase, o: &mut Obs| -> Res {
        let text = c.unit.repeat(c.times);
        let mut fb = c.fb.build();
        let before = fb.clone();
        let mut lc = blitstr::Cursor { pt: blitstr::Pt { x: c.cur[0], y: c.cur[1] }, line_height: c.cur[2] };
        let (clip, st) = (lib_clip(c.clip), lib_style(c.style));
        let r = imp(|| {
            needs(&mut || match c.op {
                Op::Paint => blitstr::paint_str(&mut fb, clip, &mut lc, st, &text),
                Op::Clear => blitstr::clear_region(&mut fb, clip),
                Op::Demo(n) => match n % 3 {
                    0 => blitstr::demo::sample_text(&mut fb),
                    1 => blitstr::demo::short_greeting(&mut fb),
                    _ => blitstr::demo::goose_poem(&mut fb),
                },
                Op::Values => {
                    let r = blitstr::ClipRect::new(c.clip[0], c.clip[1], c.clip[2], c.clip[3]);
                    let k = blitstr::Cursor::from_top_left_of(r);
                    let n: usize = blitstr::GlyphStyle::from(c.style).into();
                    std::hint::black_box((r, k, n, blitstr::glyph_to_height_hint(st), blitstr::ClipRect::full_screen(), blitstr::ClipRect::padded_screen()));
                }
            })
        });
        let (stack, requests) = match r {
            Ok(x) => x,
            Err(_) => {
                o.excluded = Some("the call panics (C02)");
                return Ok(());
            }
        };
        most.fetch_max(stack, std::sync::atomic::Ordering::Relaxed);
        let n = text.chars().count();
        let what = match c.op {
            Op::Paint => format!("paint_str with {} code points", n),
            Op::Clear => "clear_region".to_string(),
            Op::Demo(_) => "a demo screen".to_string(),
            Op::Values => "constructors".to_string(),
        };
        if requests > 0 {
            return Err(format!("{}: {} requests to the heap allocator", what, requests));
        }
        if stack > LIMIT {
            return Err(format!("{}: {} or more bytes of stack", what, stack));
        }
        o.label_if(n >= 1000, "text of 1000 code points or more");
        o.label_if(n >= 100_000, "text of 100000 code points or more");
        o.nontrivial = n >= 1000 || fb != before || matches!(c.op, Op::Values);
        Ok(())
    };
    let calls = |ops: BoxedStrategy<Op>, unit: BoxedStrategy<String>, times: BoxedStrategy<usize>| {
        (ops, fb_spec(), with_cursor(any_clip()), 0usize..3, unit, times).prop_map(|(op, fb, (clip, cur), style, unit, times)| NeedsCase { op, fb, clip, cur, style, unit, times })
    };
    let pp = p.clone();
    cx.prop("calls", cx.n(20_000, 600_000), move || {
        let op = prop_oneof![6 => Just(Op::Paint), 2 => Just(Op::Clear), 1 => (0u8..3).prop_map(Op::Demo), 1 => Just(Op::Values)].boxed();
        calls(op, text(&pp), Just(1usize).boxed())
    }, check);
    let pp = p.clone();
    cx.prop_shrink("long texts", cx.n(400, 10_000), cx.threads, 400, 30_000, move || {
        let unit = prop_oneof![2 => atom(&pp), 2 => text(&pp), 1 => Just("\n".to_string()), 1 => any::<char>().prop_map(|c| c.to_string()), 1 => Just("\u{1}".to_string())].boxed();
        calls(Just(Op::Paint).boxed(), unit, prop_oneof![200usize..3_000, 3_000usize..12_000, Just(40_000usize)].boxed()).prop_map(|mut c| {
            // A million code points at most
            c.times = c.times.min(1_000_000 / c.unit.chars().count().max(1));
            c
        })
    }, check);
    cx.note(format!("most stack used by a call: {} bytes", most.load(std::sync::atomic::Ordering::Relaxed)));
}
