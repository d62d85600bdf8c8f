// Runs the calls that the harness sends, against whatever blitstr it was linked
// with, and reports the cursor and a hash of the frame buffer after each. Built
// by the harness (with rustc alone) for libraries with generated fonts.
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn fb_hash(fb: &[u32]) -> (u32, u32) {
    let (mut a, mut b) = (0x811c_9dc5u32, 0u32);
    for w in fb {
        a = (a ^ *w).wrapping_mul(0x0100_0193);
        b = (b ^ w.wrapping_mul(0x9e37_79b1)).rotate_left(13).wrapping_mul(5).wrapping_add(0xe654_6b64);
    }
    (a, b)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    let mut fb = blitstr::new_fr_buf();
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        let p: Vec<&str> = line.split(' ').collect();
        let n = |i: usize| p[i].parse::<usize>().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| match p[0] {
            "F" => {
                for (i, w) in fb.iter_mut().enumerate() {
                    *w = u32::from_str_radix(&p[1][i * 8..i * 8 + 8], 16).unwrap();
                }
                "0 0 0".to_string()
            }
            "Z" => {
                fb = [0; blitstr::FRAME_BUF_SIZE];
                "0 0 0".to_string()
            }
            "P" => {
                let clip = blitstr::ClipRect { min: blitstr::Pt { x: n(1), y: n(2) }, max: blitstr::Pt { x: n(3), y: n(4) } };
                let mut c = blitstr::Cursor { pt: blitstr::Pt { x: n(5), y: n(6) }, line_height: n(7) };
                let style = match n(8) {
                    0 => blitstr::GlyphStyle::Small,
                    1 => blitstr::GlyphStyle::Regular,
                    _ => blitstr::GlyphStyle::Bold,
                };
                let hex = p[9].as_bytes();
                let d = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                let bytes: Vec<u8> = hex.chunks(2).map(|h| d(h[0]) << 4 | d(h[1])).collect();
                let s = String::from_utf8(bytes).unwrap();
                blitstr::paint_str(&mut fb, clip, &mut c, style, &s);
                format!("{} {} {}", c.pt.x, c.pt.y, c.line_height)
            }
            "C" => {
                let clip = blitstr::ClipRect { min: blitstr::Pt { x: n(1), y: n(2) }, max: blitstr::Pt { x: n(3), y: n(4) } };
                blitstr::clear_region(&mut fb, clip);
                "0 0 0".to_string()
            }
            "G" => {
                match n(1) % 3 {
                    0 => blitstr::demo::sample_text(&mut fb),
                    1 => blitstr::demo::short_greeting(&mut fb),
                    _ => blitstr::demo::goose_poem(&mut fb),
                }
                "0 0 0".to_string()
            }
            "D" => fb.iter().map(|w| format!("{:08x}", w)).collect::<Vec<_>>().concat(),
            _ => panic!("unknown request"),
        }));
        let reply = match r {
            Ok(s) if p[0] == "D" => s,
            Ok(s) => {
                let h = fb_hash(&fb);
                format!("{} {} {}", s, h.0, h.1)
            }
            Err(_) => "T panic".to_string(),
        };
        out.write_all(reply.as_bytes()).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
