mod engine;
mod gens;
mod lib_api;
mod oracle;
mod png;
mod props_codegen;
mod props_gen;
mod props_paint;
mod props_res;
mod props_wasm;
mod remote;

use engine::*;
use std::path::PathBuf;
use std::sync::Arc;
use std::time::Instant;

fn usage() -> ! {
    eprintln!("usage: pbt run ID TIER SEED PROFILE OUTDIR [SCALE] | pbt replay FILE PROFILE OUTDIR");
    std::process::exit(2);
}

/// Search for two code point texts whose hash is that of a cluster they are not:
/// how the inputs in known_findings.json were found
fn collisions(fonts: &oracle::Fonts) {
    use oracle::*;
    for id in [FontId::Emoji, FontId::Bold, FontId::Regular, FontId::Small] {
        let f = fonts.font(id);
        for (b, info) in &f.blocks {
            let (l, h) = BLOCKS[*b];
            if !info.lens.contains(&2) {
                continue;
            }
            for a in (l..=h).filter_map(char::from_u32) {
                for c in (0..0x110000).filter_map(char::from_u32) {
                    let mut buf = [0u8; 8];
                    let n = a.encode_utf8(&mut buf).len();
                    let m = n + c.encode_utf8(&mut buf[n..]).len();
                    let s = std::str::from_utf8(&buf[..m]).unwrap();
                    if let Some(k) = info.hashes.get(&murmur3(s, f.seed)) {
                        if k != s {
                            let pts = |s: &str| s.chars().map(|c| format!("U+{:04X}", c as u32)).collect::<Vec<_>>().join(" ");
                            println!("{} {:?} ({}) has the hash of {:?} ({})", f.name, s, pts(s), k, pts(k));
                        }
                    }
                }
            }
        }
    }
}

fn main() {
    let started = Instant::now();
    let args: Vec<String> = std::env::args().collect();
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
    let repo = PathBuf::from(env("PBT_REPO", "/repo"));
    let known_file = env("PBT_KNOWN", "/verif/known_findings.json");
    if args.len() < 2 {
        usage();
    }
    let replay: Option<Failure> = if args[1] == "replay" && args.len() >= 5 {
        let t = std::fs::read_to_string(&args[2]).expect("replay file");
        Some(serde_json::from_str(&t).expect("replay file"))
    } else {
        None
    };
    let (id, tier, seed, profile, out, scale) = match (&replay, args[1].as_str()) {
        (Some(f), _) => (f.property.clone(), Tier::Quick, 1u64, args[3].clone(), args[4].clone(), 1.0),
        (None, "run") if args.len() >= 7 => (
            args[2].clone(),
            if args[3] == "thorough" { Tier::Thorough } else { Tier::Quick },
            args[4].parse().unwrap_or(1),
            args[5].clone(),
            args[6].clone(),
            args.get(7).and_then(|s| s.parse().ok()).unwrap_or(1.0),
        ),
        _ => usage(),
    };
    let out = PathBuf::from(out);
    std::fs::create_dir_all(&out).expect("output directory");
    let fonts = match oracle::Fonts::load(&repo.join("codegen")) {
        Ok(f) => Arc::new(f),
        Err(e) => {
            eprintln!("HARNESS-ERROR cannot load the font sources: {}", e);
            std::process::exit(3);
        }
    };
    if id == "collisions" {
        return collisions(&fonts);
    }
    if id == "demos" {
        // The poem as the native library paints it on a fresh frame buffer
        let mut fb = blitstr::new_fr_buf();
        blitstr::demo::goose_poem(&mut fb);
        let hex: String = fb.iter().map(|w| format!("{:08x}", w)).collect();
        std::fs::write(out.join("demo.hex"), hex).expect("write demo.hex");
        return;
    }
    let known: Vec<props_paint::KnownEntry> = std::fs::read_to_string(&known_file)
        .ok()
        .and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok())
        .and_then(|v| serde_json::from_value(v["findings"].clone()).ok())
        .unwrap_or_default();
    install_panic_hook();
    let cx = Arc::new(Ctx::new(&id, tier, seed, scale, &profile, fonts, repo, out, replay));
    cx.spawn_watchdog(started);
    match id.as_str() {
        "C01" => props_paint::c01(&cx),
        "C02" => props_paint::c02(&cx),
        "C03" => props_paint::c03(&cx),
        "C04" => props_paint::c04(&cx),
        "C05" => props_paint::c05(&cx, &known),
        "C06" => props_paint::c06(&cx),
        "C07" => props_paint::c07(&cx),
        "C08" => props_paint::c08(&cx),
        "C09" => props_paint::c09(&cx),
        "C10" => props_paint::c10(&cx),
        "C11" => props_paint::c11(&cx),
        "C12" => props_paint::c12(&cx),
        "C13" => props_paint::c13(&cx),
        "C14" => props_paint::c14(&cx),
        "C15" => props_paint::c15(&cx),
        "C16" => props_codegen::c16(&cx),
        "C17" => props_codegen::c17(&cx),
        "C18" => props_codegen::c18(&cx),
        "C19" => props_codegen::c19(&cx),
        "C20" => props_wasm::c20(&cx),
        "C23" => props_gen::c23(&cx),
        "C24" => props_gen::c24(&cx),
        "C25" => props_gen::c25(&cx),
        "C26" => props_gen::c26(&cx),
        "C27" => props_gen::c27(&cx),
        "C29" => props_gen::c29(&cx),
        "C28" => props_res::c28(&cx),
        "C22" => props_paint::c22(&cx),
        _ => usage(),
    }
    if cx.replay.is_some() && !cx.replayed.load(std::sync::atomic::Ordering::Relaxed) {
        eprintln!("HARNESS-ERROR the replay file names no phase of this property");
        std::process::exit(3);
    }
    let code = cx.report(started);
    std::process::exit(code);
}
