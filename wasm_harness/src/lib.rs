//! The library as wasm32 without std, with flat exports for the node host
#![no_std]

use core::ptr::addr_of_mut;

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    core::arch::wasm32::unreachable()
}

const TEXT: usize = 1 << 20;
static mut FB: blitstr::FrBuf = blitstr::new_fr_buf();
static mut BUF: [u8; TEXT] = [0; TEXT];
static mut CUR: [u32; 3] = [0; 3];

#[no_mangle]
pub extern "C" fn fb_ptr() -> *mut u32 {
    addr_of_mut!(FB) as *mut u32
}
#[no_mangle]
pub extern "C" fn text_ptr() -> *mut u8 {
    addr_of_mut!(BUF) as *mut u8
}
#[no_mangle]
pub extern "C" fn cur_ptr() -> *mut u32 {
    addr_of_mut!(CUR) as *mut u32
}

fn clip(x0: u32, y0: u32, x1: u32, y1: u32) -> blitstr::ClipRect {
    blitstr::ClipRect {
        min: blitstr::Pt { x: x0 as usize, y: y0 as usize },
        max: blitstr::Pt { x: x1 as usize, y: y1 as usize },
    }
}

#[no_mangle]
pub extern "C" fn paint(x0: u32, y0: u32, x1: u32, y1: u32, style: u32, len: u32) {
    unsafe {
        let cur = &mut *addr_of_mut!(CUR);
        let text = &(&*addr_of_mut!(BUF))[..len as usize];
        let s = match core::str::from_utf8(text) {
            Ok(s) => s,
            Err(_) => core::arch::wasm32::unreachable(),
        };
        let st = match style {
            0 => blitstr::GlyphStyle::Small,
            1 => blitstr::GlyphStyle::Regular,
            _ => blitstr::GlyphStyle::Bold,
        };
        let mut c = blitstr::Cursor::new(cur[0] as usize, cur[1] as usize, cur[2] as usize);
        blitstr::paint_str(&mut *addr_of_mut!(FB), clip(x0, y0, x1, y1), &mut c, st, s);
        *cur = [c.pt.x as u32, c.pt.y as u32, c.line_height as u32];
    }
}

#[no_mangle]
pub extern "C" fn clear(x0: u32, y0: u32, x1: u32, y1: u32) {
    unsafe { blitstr::clear_region(&mut *addr_of_mut!(FB), clip(x0, y0, x1, y1)) }
}

#[no_mangle]
pub extern "C" fn demo(n: u32) {
    let fb = unsafe { &mut *addr_of_mut!(FB) };
    match n % 3 {
        0 => blitstr::demo::sample_text(fb),
        1 => blitstr::demo::short_greeting(fb),
        _ => blitstr::demo::goose_poem(fb),
    }
}
