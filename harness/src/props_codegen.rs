//! The properties of the code generator (C16 to C19): fonts generated from
//! generated sources, built into the library and looked at through its API.

use crate::engine::*;
use crate::gens::*;
use crate::lib_api::*;
use crate::oracle::*;
use crate::png;
use crate::props_gen::{constant, tables, Item};
use crate::props_paint::representatives;
use crate::remote::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub const NAMES: [&str; 5] = ["Emoji", "Hanzi", "Bold", "Regular", "Small"];
const DRIVER: &str = include_str!("driver.rs");

pub fn tool(k: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| panic!("{} is not set", k))
}

/// A directory of its own for one case, removed when dropped
pub struct Scratch(pub PathBuf);
static NEXT: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new(cx: &Ctx) -> Scratch {
        let d = cx.out_dir.join(format!("case-{}", NEXT.fetch_add(1, Ordering::Relaxed)));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ------------------------------------------------ generated font sources

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Art {
    Blank,
    Full,
    Dots(Vec<(u8, u8)>),
    Block(u8, u8, u8, u8),
    Noise(u64, u8),
}

impl Art {
    pub fn dark(&self, n: usize, x: usize, y: usize) -> bool {
        match self {
            Art::Blank => false,
            Art::Full => true,
            Art::Dots(v) => v.iter().any(|(a, b)| *a as usize % n == x && *b as usize % n == y),
            Art::Block(a, b, c, d) => {
                let (a, b, c, d) = (*a as usize % n, *b as usize % n, *c as usize % n, *d as usize % n);
                a.min(c) <= x && x <= a.max(c) && b.min(d) <= y && y <= b.max(d)
            }
            Art::Noise(s, density) => {
                let mut z = s.wrapping_add(((y * n + x) as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15));
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                ((z >> 33) % 256) < *density as u64
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Entry {
    pub cluster: String,
    pub art: Art,
    pub aliases: Vec<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FontGen {
    pub size: usize,
    pub cols: usize,
    pub gutter: usize,
    /// Blank (noisy) pixels left of and above the first cell, and how many more
    /// than a gutter right of and below the last one
    pub border: usize,
    pub margin: usize,
    /// No gutter right of and below the last cells
    #[serde(default)]
    pub tight: bool,
    /// Ink over the whole width of cells of more than 32 px
    #[serde(default)]
    pub spread: bool,
    pub cjk: bool,
    pub json: bool,
    pub upper: bool,
    pub format: u8,
    pub m3_seed: u32,
    pub noise: u64,
    /// Order of the entries in the files
    pub order: u64,
    pub entries: Vec<Entry>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SourceCase {
    /// Emoji, Hanzi, Bold, Regular, Small
    pub fonts: Vec<FontGen>,
    /// Texts, as indices into the pool of everything that could go into a text
    pub texts: Vec<Vec<u32>>,
    /// Where to paint: x, y
    pub at: (usize, usize),
    /// Generate a second time with the entries in this order
    pub reorder: u64,
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z ^ (z >> 31)
}

pub fn hex_of(s: &str, upper: bool) -> String {
    s.chars().map(|c| if upper { format!("{:X}", c as u32) } else { format!("{:x}", c as u32) }).collect::<Vec<_>>().join("-")
}

/// What goes into one font: distinct clusters and aliases
pub fn settle(f: &FontGen, name: &str) -> Vec<Entry> {
    let mut seen = HashSet::new();
    let mut hashes = HashSet::new();
    let mut ok = |s: &str| -> bool {
        let c = match s.chars().next() {
            Some(c) => c,
            None => return false,
        };
        // A newline is never looked up; code points outside of the known blocks are refused
        if c == '\n' || block_of(c as u32).is_none() || s.chars().count() > 120 {
            return false;
        }
        // Equal hashes need another seed (the generated unit test says so)
        seen.insert(s.to_string()) && hashes.insert((block_of(c as u32), murmur3(s, f.m3_seed)))
    };
    let mut v: Vec<Entry> = vec![];
    let mut all = f.entries.clone();
    if name != "Emoji" && name != "Hanzi" {
        all.insert(0, Entry { cluster: "\u{FFFD}".into(), art: Art::Block(1, 2, 30, 29), aliases: vec![] });
    }
    for e in all {
        if ok(&e.cluster) {
            let aliases = e.aliases.into_iter().filter(|a| ok(a)).collect();
            v.push(Entry { cluster: e.cluster, art: e.art, aliases });
        }
    }
    // A font may be empty, but not one that has to have a replacement character
    let may_be_empty = (name == "Emoji" || name == "Hanzi") && f.noise % 4 == 1;
    if v.is_empty() && !may_be_empty {
        v.push(Entry { cluster: "A".into(), art: Art::Full, aliases: vec![] });
    }
    v
}

pub fn shuffled<T>(mut v: Vec<T>, seed: u64) -> Vec<T> {
    if seed != 0 {
        for i in (1..v.len()).rev() {
            let j = (mix(seed, i as u64) % (i as u64 + 1)) as usize;
            v.swap(i, j);
        }
    }
    v
}

/// Write the sources of one font into dir and return its configuration
pub fn write_font(dir: &Path, f: &FontGen, name: &str, order: u64) -> serde_json::Value {
    let size = f.size.clamp(1, 255);
    // The library paints rows of up to 32 px, so larger cells get a column of ink that is no wider
    // (in the middle of large ones: the cell of the space in Latin fonts is trimmed by less than half)
    let window = if size <= 32 || f.spread { 0 } else if size > 60 { size / 2 - 16 } else { f.noise as usize % (size - 31) };
    let window = window..if size > 32 && !f.spread { window + 32 } else { size };
    let cjk = f.cjk && (size <= 32 || f.spread);
    let cols = f.cols.clamp(1, 24);
    let gutter = f.gutter.min(5);
    let border = f.border.min(9);
    let step = size + gutter;
    let entries = shuffled(settle(f, name), order);
    // In a json index the coordinates may leave gaps
    let gaps = f.json && f.noise % 2 == 1;
    let cell_of = |i: usize| if gaps { i + i / 3 } else { i };
    let rows = cell_of(entries.len().max(1) - 1) / cols + 1;
    let after = if f.tight { 0 } else { gutter + if f.margin == 3 { 3 + f.noise as usize % 70 } else { f.margin.min(3) } };
    let (w, h) = (border + cols * step - gutter + after, border + rows * step - gutter + after);
    let mut dark = vec![false; w * h];
    for y in 0..h {
        for x in 0..w {
            // Noise everywhere that is no glyph cell
            dark[y * w + x] = mix(f.noise, (y * w + x) as u64) % 3 == 0;
        }
    }
    let mut index = String::from("# index\n\n");
    let mut map: Vec<serde_json::Value> = vec![];
    let mut aliases = String::from("# aliases\n");
    let mut alias_lines: Vec<String> = vec![];
    for (i, e) in entries.iter().enumerate() {
        let n = cell_of(i);
        let (row, col) = (n / cols, n % cols);
        for y in 0..size {
            for x in 0..size {
                dark[(border + row * step + y) * w + border + col * step + x] = window.contains(&x) && e.art.dark(size, x, y);
            }
        }
        let hex = hex_of(&e.cluster, f.upper);
        match mix(f.noise, i as u64) % 9 {
            0 => index += &format!("{} # comment\n", hex),
            1 => index += &format!("  {}\n\n", hex),
            2 => index += &format!("{}\r\n", hex),
            3 => index += &format!("{}# 1f600 # \u{e9}\n\t\r\n", hex),
            4 => index += &format!("\t{}\t\n#\n", hex),
            _ => index += &format!("{}\n", hex),
        }
        map.push(serde_json::json!({"hex": hex, "row": row, "col": col, "label": "x"}));
        for a in &e.aliases {
            let (before, between, after) = [("", " ", ""), ("", " ", ""), ("", "\t", ""), ("  ", "   ", " "), ("", " ", " # comment"), ("\t", " \t", "\r")][mix(f.noise, alias_lines.len() as u64 + 99) as usize % 6];
            // The case of hex digits means nothing, in either column
            let case = mix(f.noise, alias_lines.len() as u64 + 300);
            let (c, a) = (hex_of(&e.cluster, f.upper ^ (case % 4 == 0)), hex_of(a, f.upper ^ (case % 2 == 0)));
            alias_lines.push(format!("{}{}{}{}{}\n", before, c, between, a, after));
        }
    }
    for (i, l) in shuffled(alias_lines, order).into_iter().enumerate() {
        if mix(f.noise, i as u64 + 7) % 6 == 0 {
            aliases += "\n# a comment\n";
        }
        aliases += &l;
    }
    // Very long comments, no newline at the end
    if f.noise % 11 == 0 {
        index.insert_str(0, &format!("# {}\n", "x".repeat(70_000)));
    }
    if f.noise % 11 == 1 {
        aliases.insert_str(0, &format!("# {}\n", "x".repeat(70_000)));
    }
    if f.noise % 5 == 0 {
        for t in [&mut index, &mut aliases] {
            t.truncate(t.trim_end().len());
        }
    }
    let format = png::FORMATS[f.format as usize % png::FORMATS.len()];
    // Files named after the font, or called alike in a directory of the font's own
    let own_dir = f.noise % 7 >= 4;
    let low = name.to_lowercase();
    let at = if own_dir { format!("{}/", low) } else { format!("{}_", low) };
    if own_dir {
        std::fs::create_dir_all(dir.join(&low)).expect("mkdir");
    }
    std::fs::write(dir.join(format!("{}sheet.png", at)), png::encode(w, h, &dark, format)).expect("write sprites");
    if f.json {
        let map = shuffled(map, order.wrapping_mul(3));
        std::fs::write(dir.join(format!("{}index", at)), serde_json::json!({"comment": ["x"], "map": map}).to_string()).expect("write index");
    } else {
        std::fs::write(dir.join(format!("{}index", at)), index).expect("write index");
    }
    std::fs::write(dir.join(format!("{}aliases.txt", at)), aliases).expect("write aliases");
    std::fs::write(dir.join("legal.txt"), "// Made up for a test\n").expect("write legal");
    let legal = match f.noise % 4 {
        0 => String::new(),
        1 => "legal.txt".into(),
        _ => format!("{}legal.txt", at),
    };
    if f.noise % 4 > 1 {
        let t = format!("{}// Made up for {}\n{}", ["", "\n", "//\n", "// \t\n"][mix(f.noise, 11) as usize % 4], name, "// and more\n".repeat(mix(f.noise, 12) as usize % 3));
        std::fs::write(dir.join(&legal), t).expect("write legal");
    }
    let no_alias = entries.iter().all(|e| e.aliases.is_empty()) && f.noise % 3 == 0;
    serde_json::json!({
        "name": name, "m3Seed": f.m3_seed, "sprites": format!("{}sheet.png", at), "size": size, "cols": cols,
        "gutter": gutter, "border": border, "legal": legal,
        "index": format!("{}index", at), "indexType": if f.json { "json-grid-coord" } else { "txt-row-major" },
        "aliases": if no_alias { String::new() } else { format!("{}aliases.txt", at) },
        "glyphTrim": if cjk { "CJK" } else { "proportional" }, "rustout": format!("../out/{}.rs", low),
    })
}

pub fn write_sources(dir: &Path, c: &SourceCase, reorder: u64) {
    let gen = dir.join("gen");
    std::fs::create_dir_all(&gen).expect("mkdir");
    std::fs::create_dir_all(dir.join("out")).expect("mkdir");
    let sets: Vec<_> = NAMES.iter().enumerate().map(|(i, n)| write_font(&gen, &c.fonts[i], n, if reorder != 0 { reorder } else { c.fonts[i].order })).collect();
    std::fs::write(gen.join("config.json"), serde_json::json!({"comment": [], "glyphSets": sets}).to_string()).expect("write config");
}

/// Run a command to its end within a CPU time limit; (exit code, output)
pub fn run(cmd: &mut Command) -> (Option<i32>, String) {
    unsafe {
        cmd.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 30, rlim_max: 40 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let o = cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).output().unwrap_or_else(|e| panic!("cannot run {:?}: {}", cmd, e));
    let mut s = String::from_utf8_lossy(&o.stdout).into_owned();
    s.push_str(&String::from_utf8_lossy(&o.stderr));
    (o.status.code(), s)
}

pub fn tail(s: &str) -> String {
    let v: Vec<char> = s.chars().collect();
    v[v.len().saturating_sub(600)..].iter().collect()
}

/// The code generator in an environment that must not matter: other place, time
/// zone, language and processors; home and temporary files within dir
fn codegen_elsewhere(dir: &Path, cwd: &Path, args: &[&str], other: bool) -> (Option<i32>, String) {
    let mut c = Command::new(tool("PBT_CODEGEN"));
    c.args(args).current_dir(cwd);
    elsewhere(&mut c, dir, other);
    run(&mut c)
}

fn elsewhere(c: &mut Command, dir: &Path, other: bool) {
    let home = dir.join(if other { "home" } else { "" });
    c.env("HOME", &home).env("XDG_CACHE_HOME", home.join("cache")).env("XDG_CONFIG_HOME", &home).env("TMPDIR", dir.join("tmp"));
    // Never the same date
    c.env("TZ", if other { "Etc/GMT-14" } else { "Etc/GMT+12" });
    let l = if other { "tr_TR.UTF-8" } else { "C" };
    c.env("LANG", l).env("LC_ALL", l).env("USER", if other { "someone" } else { "root" }).env("GOMAXPROCS", if other { "1" } else { "8" });
}

/// Set the time of every file below dir
fn touch(dir: &Path, secs: u64) {
    for e in std::fs::read_dir(dir).expect("read_dir") {
        let p = e.expect("read_dir").path();
        if p.is_dir() {
            touch(&p, secs);
        } else {
            let t = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(secs);
            std::fs::File::options().write(true).open(&p).and_then(|f| f.set_modified(t)).expect("set the time");
        }
    }
}

pub fn codegen(cwd: &Path, args: &[&str]) -> (Option<i32>, String) {
    run(Command::new(tool("PBT_CODEGEN")).args(args).current_dir(cwd))
}

pub fn copy_dir(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).expect("mkdir");
    for e in std::fs::read_dir(from).unwrap_or_else(|e| panic!("{:?}: {}", from, e)) {
        let e = e.expect("read_dir");
        let t = to.join(e.file_name());
        if e.file_type().expect("file type").is_dir() {
            copy_dir(&e.path(), &t);
        } else {
            std::fs::copy(e.path(), &t).expect("copy");
        }
    }
}

pub fn edition(repo: &Path) -> String {
    let t = std::fs::read_to_string(repo.join("Cargo.toml")).unwrap_or_default();
    t.lines()
        .find_map(|l| l.trim().strip_prefix("edition").map(|r| r.trim_matches(|c: char| !c.is_ascii_digit()).to_string()))
        .unwrap_or_else(|| "2018".into())
}

/// Build the library from dir/src with a driver program; the path of the program
pub fn build_driver(cx: &Ctx, dir: &Path, opt: &str) -> Result<PathBuf, String> {
    let rustc = tool("PBT_RUSTC");
    let ed = edition(&cx.repo);
    let (code, out) = run(Command::new(&rustc)
        .args(["--crate-name", "blitstr", "--crate-type", "rlib", "--edition", &ed, "--cap-lints", "allow", "-Cdebuginfo=0", "-Ccodegen-units=4"])
        .arg(format!("-Copt-level={}", opt))
        .arg(dir.join("src/lib.rs"))
        .arg("-o")
        .arg(dir.join("libblitstr.rlib"))
        .current_dir(dir));
    if code != Some(0) {
        return Err(format!("the library does not compile with the generated fonts: {}", tail(&out)));
    }
    std::fs::write(dir.join("driver.rs"), DRIVER).expect("write driver");
    let (code, out) = run(Command::new(&rustc)
        .args(["--crate-name", "driver", "--edition", "2021", "--cap-lints", "allow", "-Cdebuginfo=0", "-Copt-level=1"])
        .arg(dir.join("driver.rs"))
        .arg("--extern")
        .arg(format!("blitstr={}", dir.join("libblitstr.rlib").display()))
        .arg("-o")
        .arg(dir.join("driver"))
        .current_dir(dir));
    if code != Some(0) {
        // The driver uses only the public API: not a matter of the fonts
        panic!("the driver does not compile: {}", tail(&out));
    }
    Ok(dir.join("driver"))
}

/// Generate, build and start the library with the fonts of a case
pub fn with_fonts(cx: &Ctx, dir: &Path, c: &SourceCase, reorder: u64) -> Result<(Fonts, Remote), String> {
    write_sources(dir, c, reorder);
    let fonts = Fonts::load(&dir.join("gen")).unwrap_or_else(|e| panic!("oracle cannot load the generated sources: {}", e));
    let (code, out) = codegen(&dir.join("gen"), &["--write"]);
    if code != Some(0) {
        return Err(format!("the code generator failed (exit {:?}) on valid sources: {}", code, tail(&out)));
    }
    copy_dir(&cx.repo.join("src"), &dir.join("src"));
    for n in NAMES {
        let f = format!("{}.rs", n.to_lowercase());
        if std::fs::copy(dir.join("out").join(&f), dir.join("src/fonts").join(&f)).is_err() {
            return Err(format!("the code generator exits with 0 but did not write {}", f));
        }
    }
    let exe = build_driver(cx, dir, "0")?;
    Ok((fonts, Remote::spawn(&[exe.display().to_string()])))
}

/// Paint on the remote side and with the reference from the same sources
fn compare(fonts: &Fonts, r: &mut Remote, clip: Clip, k0: CurA, st: usize, text: &str) -> Result<Option<u32>, String> {
    let (segs, col) = fonts.segment(text, style(st));
    if col.is_some() {
        return Ok(None);
    }
    let mut want = FbSpec::Zero.build();
    let mut mk = cur(k0);
    paint(fonts, &mut want[..], rect(clip), &mut mk, &segs);
    r.set(FbSpec::Zero)?;
    let mut k = k0;
    let what = format!("painting {:?} ({}) in style {}", text, hex_of(text, true), st);
    let h = r.paint(clip, &mut k, st, text).map_err(|e| format!("{}: {}", what, e))?;
    r.same_fb(&what, h, &want[..])?;
    cur_diff(&what, k, as_cur_a(mk))?;
    Ok(Some(ink(&want[..])))
}

fn art() -> BoxedStrategy<Art> {
    prop_oneof![
        1 => Just(Art::Blank),
        1 => Just(Art::Full),
        4 => proptest::collection::vec((prop_oneof![0u8..32, Just(0), Just(31)], prop_oneof![0u8..32, Just(0), Just(31)]), 1..4).prop_map(Art::Dots),
        3 => (0u8..32, 0u8..32, 0u8..32, 0u8..32).prop_map(|(a, b, c, d)| Art::Block(a, b, c, d)),
        8 => (any::<u64>(), prop_oneof![2u8..12, 20u8..250]).prop_map(|(s, d)| Art::Noise(s, d)),
    ]
    .boxed()
}

pub fn first_cp() -> BoxedStrategy<char> {
    let block = |hot: bool| {
        (0..BLOCKS.len(), any::<u32>(), 0u32..6).prop_map(move |(b, r, k)| {
            let (l, h) = BLOCKS[b];
            let n = match k {
                0 => l,
                1 => h,
                2 => l + r % 4 % (h - l + 1),
                3 if hot => l + r % 16 % (h - l + 1),
                _ => l + r % (h - l + 1),
            };
            char::from_u32(n).unwrap_or('A')
        })
    };
    prop_oneof![
        4 => block(true),
        2 => block(false),
        2 => (0x20u32..0x7f).prop_map(|c| char::from_u32(c).unwrap()),
        1 => (0x1F600u32..0x1F64F).prop_map(|c| char::from_u32(c).unwrap()),
        1 => (0x4E00u32..0x4E20).prop_map(|c| char::from_u32(c).unwrap()),
    ]
    .boxed()
}

pub fn cluster(multi: u32) -> BoxedStrategy<String> {
    let more = prop_oneof![
        3 => prop_oneof![Just('\u{301}'), Just('\u{308}'), Just('\u{FE0F}'), Just('\u{200D}'), Just('\u{20E3}'), Just('\u{1F3FB}')],
        2 => first_cp(),
        1 => any::<char>(),
    ];
    let tail = prop_oneof![
        10 => Just(vec![]),
        multi => proptest::collection::vec(more.clone(), 1..4),
        1 + multi / 8 => proptest::collection::vec(more, 4..13),
    ];
    // Few distinct first code points, so that clusters share prefixes
    let first = prop_oneof![3 => first_cp(), multi => prop_oneof![Just('a'), Just('\u{1F600}'), Just('\u{E000}'), Just('\u{4E00}')]];
    (first, tail).prop_map(|(c, t)| std::iter::once(c).chain(t).collect()).boxed()
}

/// Now and then, add clusters that are the beginning or a continuation of others
fn related(entries: Vec<Entry>, noise: u64) -> Vec<Entry> {
    let mut more = vec![];
    let mut entries = entries;
    for (i, e) in entries.iter_mut().enumerate() {
        let cs: Vec<char> = e.cluster.chars().collect();
        let r = mix(noise, i as u64 + 1000);
        // Aliases are often spellings of the same thing: one code point more, less or doubled
        let k = (r >> 16) as usize % cs.len();
        let alias: Option<String> = match (r >> 32) % 16 {
            0 | 1 => Some(e.cluster.clone() + "\u{FE0F}"),
            2 => Some(cs.iter().filter(|c| **c != '\u{FE0F}').collect()),
            3 => Some(cs.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, c)| c).collect()),
            4 => Some(cs[..=k].iter().chain(&cs[k..]).collect()),
            5 => Some(cs.iter().rev().collect()),
            6 => Some(cs[..=k].iter().chain(&['\u{FE0F}']).chain(&cs[k + 1..]).collect()),
            _ => None,
        };
        e.aliases.extend(alias.filter(|_| !e.aliases.is_empty() || r % 2 == 0));
        let art = Art::Noise(r, 90);
        if cs.len() > 1 && r % 3 == 0 {
            let n = 1 + (r >> 8) as usize % (cs.len() - 1);
            more.push(Entry { cluster: cs[..n].iter().collect(), art, aliases: vec![] });
        } else if cs.len() > 1 && r % 3 == 1 && r % 4 != 0 {
            let n = 1 + (r >> 8) as usize % if r >> 60 == 5 { 100 } else { 12 };
            more.push(Entry { cluster: cs.iter().cycle().take(cs.len() + n).collect(), art, aliases: vec![] });
        }
    }
    entries.into_iter().chain(more).collect()
}

/// Now and then, hashes at the ends of their range, or that differ in the low bits only
fn hashed(f: FontGen) -> FontGen {
    let mut f = f;
    match (f.noise >> 40) % 12 {
        0 | 1 if !f.entries.is_empty() => {
            let hash = [0, 1, 0xff, 0xffff, 0x0fff_ffff, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff][(f.noise >> 48) as usize % 9];
            f.m3_seed = murmur3_seed(&f.entries[0].cluster, hash);
            assert_eq!(murmur3(&f.entries[0].cluster, f.m3_seed), hash);
        }
        2 if !f.entries.is_empty() => {
            let low = [0x4E00, 0x20000, 0x23000][(f.noise >> 48) as usize % 3];
            let mut h: Vec<(u32, char)> = (low..low + 0x5000).filter_map(|c| char::from_u32(c)).map(|c| (murmur3(c.encode_utf8(&mut [0; 4]), f.m3_seed), c)).collect();
            h.sort_unstable();
            let mut near: Vec<usize> = (1..h.len()).filter(|i| h[*i].0 != h[*i - 1].0).collect();
            near.sort_by_key(|i| h[*i].0 - h[*i - 1].0);
            for (n, i) in near.into_iter().take(1 + (f.noise >> 52) as usize % 6).enumerate() {
                for (k, j) in [i, i - 1].into_iter().enumerate() {
                    f.entries.push(Entry { cluster: h[j].1.to_string(), art: Art::Noise(f.noise ^ (n * 2 + k) as u64, 90), aliases: vec![] });
                }
            }
        }
        _ => {}
    }
    f
}

pub fn font_gen(n: std::ops::Range<usize>, multi: u32, aliases: usize) -> BoxedStrategy<FontGen> {
    let size = prop_oneof![3 => Just(32usize), 2 => Just(30), 2 => Just(24), 4 => 4usize..33, 1 => 1usize..6, 1 => 33usize..61, 1 => prop_oneof![3 => 61usize..256, 1 => Just(255)]];
    let entry = (cluster(multi), art(), proptest::collection::vec(cluster(multi), 0..aliases + 1)).prop_map(|(cluster, art, aliases)| Entry { cluster, art, aliases });
    let seed = prop_oneof![2 => Just(0u32), 1 => 1u32..10, 2 => any::<u32>(), 1 => Just(u32::MAX)];
    // Mostly the geometry of the committed sheets, where border and gutter are the same
    let border = prop_oneof![3 => Just(None), 2 => (0usize..6).prop_map(Some)];
    ((size, 1usize..20, 0usize..4, border, prop_oneof![3 => Just(0usize), 1 => 1usize..4]), any::<(bool, bool, bool)>(), 0u8..png::FORMATS.len() as u8, seed, (any::<u64>(), prop_oneof![Just(0u64), any::<u64>()]), proptest::collection::vec(entry, n))
        .prop_map(|((size, cols, gutter, border, margin), (cjk, json, upper), format, m3_seed, (noise, order), entries)| FontGen {
            size,
            cols,
            gutter,
            border: border.unwrap_or(gutter),
            margin,
            tight: noise % 5 == 2,
            spread: false,
            cjk,
            json,
            upper,
            format,
            m3_seed,
            noise,
            order,
            entries: related(entries, noise),
        })
        .prop_map(hashed)
        .boxed()
}

pub fn source_case(n: std::ops::Range<usize>, multi: u32, aliases: usize, texts: usize, reorder: bool) -> BoxedStrategy<SourceCase> {
    (
        proptest::collection::vec(font_gen(n, multi, aliases), 5..6),
        proptest::collection::vec(proptest::collection::vec(any::<u32>(), 1..9), 0..texts + 1),
        (0usize..120, 0usize..200),
        if reorder { (1u64..u64::MAX).boxed() } else { Just(0u64).boxed() },
    )
        .prop_map(|(fonts, texts, at, reorder)| SourceCase { fonts, texts, at, reorder })
        .boxed()
}

/// What is in the fonts of a case
fn census(fonts: &Fonts, o: &mut Obs) -> (usize, usize, usize) {
    let (mut clusters, mut multi, mut inked) = (0, 0, 0);
    for id in [FontId::Emoji, FontId::Bold, FontId::Regular, FontId::Small, FontId::Hanzi] {
        let f = fonts.font(id);
        for (s, g) in &f.entries {
            clusters += 1;
            if s.chars().count() > 1 {
                multi += 1;
            }
            if !f.glyphs[*g].is_blank() {
                inked += 1;
            }
        }
        o.label_if(f.entries.iter().any(|(_, g)| f.glyphs[*g].is_blank()), "blank cells");
        o.label_if(!f.aliases.is_empty(), "aliases");
        o.label_if(f.max_height < 24, "small cells");
        o.label_if(f.max_height > 32, "cells of more than 32 px");
        o.label_if(f.entries.is_empty(), "empty font");
        o.label_if(f.glyphs.iter().any(|g| g.w * g.h % 32 == 0 && g.w > 0), "glyph fills whole words");
    }
    (clusters, multi, inked)
}

/// A font file as it is now, read without compiling it. This is only used to look
/// for suspects quickly: what counts is what a library with the font paints.
struct Reading {
    seed: u32,
    arms: Vec<(u32, u32, Vec<(String, usize)>)>,
    index: BTreeMap<String, (Vec<u32>, Vec<u32>)>,
    data: Vec<u32>,
}

impl Reading {
    fn new(text: &str) -> Result<Reading, String> {
        let mut r = Reading { seed: constant(text, "M3_SEED")? as u32, arms: vec![], index: BTreeMap::new(), data: vec![] };
        let hex = |s: &str| u32::from_str_radix(s.trim().trim_start_matches("0x"), 16).map_err(|e| e.to_string());
        for l in text.lines().map(|l| l.trim()) {
            if let Some((lo, hi)) = l.strip_suffix("=> {").and_then(|x| x.split_once("..=")) {
                r.arms.push((hex(lo)?, hex(hi)?, vec![]));
            } else if let Some((name, a)) = l.split_once("find_").and_then(|(b, x)| if b.contains("fn ") || b.contains("//") { None } else { x.split_once('(') }) {
                let n = a.split_once(',').and_then(|x| x.1.split(')').next()).and_then(|x| x.trim().parse().ok()).ok_or("find_")?;
                r.arms.last_mut().ok_or("find_ before any block")?.2.push((name.to_uppercase(), n));
            }
        }
        for t in tables(text) {
            let v: Result<Vec<u32>, String> = t.items.into_iter().filter_map(|i| if let Item::Number(n) = i { Some(n) } else { None }).collect();
            if t.name == "DATA" {
                r.data = v?;
            } else if let Some(b) = t.name.strip_prefix("HASH_") {
                r.index.entry(b.to_string()).or_default().0 = v?;
            } else if let Some(b) = t.name.strip_prefix("OFFSET_") {
                r.index.entry(b.to_string()).or_default().1 = v?;
            }
        }
        Ok(r)
    }

    /// Bytes and record of the cluster that the text starts with
    fn find(&self, text: &str) -> Option<(usize, usize)> {
        let c = text.chars().next()? as u32;
        let arm = self.arms.iter().find(|a| a.0 <= c && c <= a.1)?;
        arm.2.iter().find_map(|(name, n)| {
            let end = text.char_indices().nth(*n).map_or(text.len(), |x| x.0);
            let (hashes, offsets) = self.index.get(name)?;
            let i = hashes.binary_search(&murmur3(&text[..end], self.seed)).ok()?;
            Some((end, *offsets.get(i)? as usize))
        })
    }

    /// The glyph of a record is another one
    fn differs(&self, at: usize, g: &Glyph) -> bool {
        let head = match self.data.get(at) {
            Some(h) => *h as usize,
            None => return true,
        };
        let (w, h, yoff) = (head >> 16 & 255, head >> 8 & 255, head & 255);
        if g.is_blank() && w == g.w {
            return (0..w * h).any(|k| self.data.get(at + 1 + k / 32).map_or(true, |x| x >> (31 - k % 32) & 1 == 1));
        }
        if (w, h, yoff) != (g.w, g.h, g.yoff) {
            return true;
        }
        (0..w * h).any(|k| self.data.get(at + 1 + k / 32).map_or(true, |x| (x >> (31 - k % 32) & 1 == 1) != g.ink(w - 1 - k % w, k / w)))
    }
}

/// Generate the fonts of a case and read them: something that does not look right
fn suspect(dir: &Path, c: &SourceCase, o: &mut Obs, texts: impl Fn(&Font) -> Vec<String>) -> Result<Option<String>, String> {
    write_sources(dir, c, 0);
    let fonts = Fonts::load(&dir.join("gen")).unwrap_or_else(|e| panic!("oracle cannot load the generated sources: {}", e));
    let (code, out) = codegen(&dir.join("gen"), &["--write"]);
    if code != Some(0) {
        return Err(format!("the code generator failed (exit {:?}) on valid sources: {}", code, tail(&out)));
    }
    let (clusters, multi, inked) = census(&fonts, o);
    o.nontrivial = clusters >= 10 && inked >= 5 && multi >= 1;
    for (id, n) in [FontId::Bold, FontId::Emoji, FontId::Hanzi, FontId::Regular, FontId::Small].into_iter().zip(["bold", "emoji", "hanzi", "regular", "small"]) {
        let f = fonts.font(id);
        let text = std::fs::read_to_string(dir.join(format!("out/{}.rs", n))).map_err(|_| format!("the code generator exits with 0 but did not write {}.rs", n))?;
        let r = match Reading::new(&text) {
            Ok(r) => r,
            Err(e) => return Ok(Some(format!("{}: {}", n, e))),
        };
        for s in texts(f) {
            let want = f.longest(&s);
            if f.collision(&s, want.map(|w| w.0)).is_some() {
                continue;
            }
            let ok = match (r.find(&s), want) {
                (None, None) => true,
                (Some((bytes, at)), Some((len, g))) => bytes == len && !r.differs(at, &f.glyphs[g]),
                _ => false,
            };
            if !ok {
                return Ok(Some(format!("{}: {:?}", n, s)));
            }
        }
    }
    Ok(None)
}

/// Suspects are painted. If these turn out to be right again and again, the font
/// files are just not what Reading takes them for, and reading them is no use.
fn confirm(wrong: &AtomicU64, s: Option<String>, o: &mut Obs, paint: impl Fn(&mut Obs) -> Res) -> Res {
    if s.is_none() {
        o.label("read only");
        return Ok(());
    }
    if wrong.load(Ordering::Relaxed) >= 24 {
        o.excluded = Some("font files that cannot be read without the library");
        return Ok(());
    }
    o.label("read and painted");
    paint(o)?;
    wrong.fetch_add(1, Ordering::Relaxed);
    Ok(())
}

pub fn c16(cx: &Ctx) {
    cx.rule("sprite sheets (12 PNG formats, cells of 1 to 60 px with up to 32 px wide glyphs, gutters with noise, blank, full, single-dot and noise glyphs, both trim modes, both index types) turned into fonts by the real generator, built into the library, and every cluster painted at 3 alignments in every style; and ten times as many, and sheets of hundreds of rows or columns or with wide gaps, of which the font files are read (header, bits, index) and only those painted where that is not the artwork; non-trivial: at least 10 clusters, at least 5 of them with ink");
    let threads = cx.threads;
    let check = |c: &SourceCase, o: &mut Obs| -> Res {
        let dir = Scratch::new(cx);
        let (fonts, mut r) = with_fonts(cx, &dir.0, c, 0)?;
        let (clusters, _, inked) = census(&fonts, o);
        let mut texts: BTreeMap<String, ()> = BTreeMap::new();
        for id in [FontId::Emoji, FontId::Bold, FontId::Regular, FontId::Small, FontId::Hanzi] {
            for (s, _) in &fonts.font(id).entries {
                texts.insert(s.clone(), ());
            }
        }
        for (i, s) in texts.keys().enumerate() {
            for st in 0..3 {
                for x in [8, c.at.0, 31 + i % 32] {
                    if compare(&fonts, &mut r, [0, 0, W, H], [x, c.at.1, 0], st, s)?.is_none() {
                        o.label("hash collision (known finding of C05)");
                    }
                }
            }
        }
        o.nontrivial = clusters >= 10 && inked >= 5;
        Ok(())
    };
    cx.prop_shrink("sheets", cx.n(120, 2_500), threads, 60, 60_000, || source_case(2..26, 2, 1, 0, false), check);
    let wrong = AtomicU64::new(0);
    let more = |c: &SourceCase, o: &mut Obs| -> Res {
        let dir = Scratch::new(cx);
        let s = suspect(&dir.0, c, o, |f| f.entries.iter().map(|e| e.0.clone()).collect())?;
        confirm(&wrong, s, o, |o| check(c, o))
    };
    cx.prop_shrink("more sheets", cx.n(1_200, 30_000), threads, 60, 60_000, || source_case(4..50, 2, 1, 0, false), more);
    // Hundreds of small cells, in one or two columns, in a single row, or about square
    let long = || {
        source_case(200..600, 2, 0, 0, false)
            .prop_map(|mut c| {
                for f in &mut c.fonts {
                    f.size = 3 + f.size % 10;
                    f.cols = match f.noise % 4 {
                        0 => 1,
                        1 => 2,
                        2 => f.entries.len().max(1),
                        _ => f.cols,
                    };
                }
                c
            })
            .boxed()
    };
    cx.prop_shrink("long sheets", cx.n(64, 1_500), threads, 30, 60_000, long, more);
    // A few small cells far apart
    let wide = || {
        source_case(3..12, 2, 0, 0, false)
            .prop_map(|mut c| {
                for f in &mut c.fonts {
                    f.size = 3 + f.size % 10;
                    let far = [255, 256, 257, 100 + f.noise as usize / 16 % 300];
                    if f.noise % 3 != 0 {
                        f.gutter = far[f.noise as usize / 4 % 4];
                    }
                    if f.noise % 3 != 1 {
                        f.border = far[f.noise as usize / 8 % 4];
                    }
                }
                c
            })
            .boxed()
    };
    cx.prop_shrink("far apart", cx.n(64, 1_500), threads, 30, 60_000, wide, more);
}

pub fn c17(cx: &Ctx) {
    cx.rule("indices and alias lists (clusters of 1 to 24 code points over all supported blocks that share prefixes, any seed, comments, both cases of hex) turned into fonts by the real generator and built into the library; every cluster and alias and texts of clusters, prefixes and unindexed code points painted in every style; in a third of the cases also generated again with the entries in another order; and ten times as many of which the font files are read and only those painted where a lookup goes wrong; non-trivial: at least 3 multi code point clusters and at least one alias");
    let threads = cx.threads;
    let check = |c: &SourceCase, o: &mut Obs| -> Res {
        let dir = Scratch::new(cx);
        let (fonts, mut r) = with_fonts(cx, &dir.0, c, 0)?;
        let (_, multi, _) = census(&fonts, o);
        let mut pool: Vec<String> = vec![];
        let mut aliases = 0;
        for id in [FontId::Emoji, FontId::Bold, FontId::Regular, FontId::Small, FontId::Hanzi] {
            let f = fonts.font(id);
            aliases += f.aliases.len();
            for (s, _) in &f.entries {
                pool.push(s.clone());
                let cs: Vec<char> = s.chars().collect();
                for k in 1..cs.len() {
                    pool.push(cs[..k].iter().collect());
                    pool.push(cs[k..].iter().collect());
                }
            }
        }
        let indexed = pool.len();
        for (l, h) in BLOCKS {
            for n in [l.wrapping_sub(1), *l, *l + 1, *h, *h + 1] {
                if let Some(ch) = char::from_u32(n) {
                    pool.push(ch.to_string());
                }
            }
        }
        pool.push("\n".into());
        let mut texts: Vec<String> = pool.clone();
        // Each once more with something after it: the longest match must not depend on the end of the text
        for s in &pool[..indexed] {
            let first = s.chars().next().unwrap();
            texts.push(format!("{}{}", s, if s.len() % 2 == 0 { first } else { 'a' }));
        }
        texts.sort();
        texts.dedup();
        for t in &c.texts {
            texts.push(t.iter().map(|n| if n % 4 == 0 { &pool[*n as usize / 4 % pool.len()] } else { &pool[*n as usize / 4 % indexed] }.as_str()).collect());
        }
        let mut runs: Vec<(Fonts, Remote)> = vec![];
        if c.reorder != 0 {
            let d2 = dir.0.join("again");
            std::fs::create_dir_all(&d2).expect("mkdir");
            runs.push(with_fonts(cx, &d2, c, c.reorder)?);
            o.label("reordered");
        }
        for (i, s) in texts.iter().enumerate() {
            for st in 0..3 {
                let k = [6 + i % 40, 6 + c.at.1 % 50, 0];
                if compare(&fonts, &mut r, [0, 0, W, H], k, st, s)?.is_none() {
                    o.label("hash collision (known finding of C05)");
                    continue;
                }
                for (f2, r2) in runs.iter_mut() {
                    // The space cell of the Latin fonts is trimmed by its place in the sheet,
                    // so what is compared is each order with its own sources
                    compare(f2, r2, [0, 0, W, H], k, st, s).map_err(|e| format!("with the entries in another order: {}", e))?;
                }
            }
        }
        o.nontrivial = multi >= 3 && aliases >= 1;
        Ok(())
    };
    cx.prop_shrink("indices", cx.n(64, 1_600), threads, 60, 60_000, || source_case(1..30, 8, 2, 30, false), check);
    cx.prop_shrink("reordered", cx.n(24, 600), threads, 40, 60_000, || source_case(1..30, 8, 2, 30, true), check);
    // Many entries in few blocks: deep binary searches
    cx.prop_shrink("large", cx.n(8, 160), threads, 30, 60_000, || source_case(150..400, 5, 1, 60, false), check);
    let wrong = AtomicU64::new(0);
    let more = |c: &SourceCase, o: &mut Obs| -> Res {
        let dir = Scratch::new(cx);
        let s = suspect(&dir.0, c, o, |f| {
            let mut v = vec![];
            for (s, _) in &f.entries {
                let cs: Vec<char> = s.chars().collect();
                for k in 1..cs.len() {
                    v.push(cs[..k].iter().collect());
                    v.push(cs[k..].iter().collect());
                }
                v.push(s.clone());
                v.push(format!("{}{}", s, cs[0]));
                v.push(format!("{}\u{FE0F}", s));
                for n in [cs[0] as u32 - 1, cs[0] as u32 + 1] {
                    v.extend(char::from_u32(n).map(|c| c.to_string()));
                }
            }
            for (l, h) in BLOCKS {
                for n in [l.wrapping_sub(1), *l, *l + 1, *h, *h + 1] {
                    v.extend(char::from_u32(n).map(|c| c.to_string()));
                }
            }
            v
        })?;
        confirm(&wrong, s, o, |o| check(c, o))
    };
    cx.prop_shrink("more indices", cx.n(1_200, 30_000), threads, 60, 60_000, || source_case(1..40, 9, 2, 10, false), more);
    cx.prop_shrink("more large", cx.n(48, 1_000), threads, 30, 60_000, || source_case(100..500, 5, 1, 10, false), more);
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault {
    None,
    /// The directory of this output does not exist
    NoDir(usize),
    /// A directory is where this output should go
    IsDir(usize),
    /// The disk is full when this output is written
    Full(usize),
    /// Files cannot grow over this many bytes
    Limit(u64),
    /// This output's directory is a file
    ParentIsFile(usize),
    /// No such input file
    NoInput(usize, u8),
    /// Other output files are already there: longer, as long but not the same,
    /// cut short, empty or blank; made long ago or in the future
    Older { kind: u8, at: u32, time: Option<bool> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CliCase {
    pub src: SourceCase,
    pub args: Vec<String>,
    pub fault: Fault,
    pub sets: usize,
    /// Set i uses the sources of set twins[i]
    #[serde(default)]
    pub twins: Vec<usize>,
}

/// A system call that fails, or during which the generator is killed
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SysFault {
    pub call: u8,
    pub error: u8,
    pub when: u32,
    /// And all calls after it
    pub on: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SysCase {
    pub src: SourceCase,
    pub sets: usize,
    pub fault: Option<SysFault>,
    pub older: bool,
    pub args: Vec<String>,
}

/// The path that a traced system call changed, if it is outside of dir (and no device)
fn changed_outside(line: &str, cwd: &Path, dir: &Path) -> Option<PathBuf> {
    let line = line.trim_start_matches(|c: char| c.is_ascii_digit()).trim_start();
    let (call, rest) = line.split_once('(')?;
    if rest.contains(") = -1 ") || !call.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
        return None;
    }
    let changes = match call {
        "open" | "openat" | "openat2" => ["O_WRONLY", "O_RDWR", "O_CREAT", "O_TRUNC"].iter().any(|f| rest.contains(f)),
        "execve" | "access" | "faccessat" | "faccessat2" | "stat" | "lstat" | "newfstatat" | "fstatat64" | "statx" | "readlink" | "readlinkat" | "getcwd" | "chdir" | "statfs" | "inotify_add_watch" | "getxattr" | "lgetxattr" => false,
        "creat" | "rename" | "renameat" | "renameat2" | "unlink" | "unlinkat" | "rmdir" | "mkdir" | "mkdirat" | "truncate" | "link" | "linkat" | "symlink" | "symlinkat" | "mknod" | "mknodat" | "chmod" | "fchmodat" | "fchmodat2" | "chown" | "lchown" | "fchownat" | "utime" | "utimes" | "utimensat" | "futimesat" => true,
        _ => false,
    };
    if !changes {
        return None;
    }
    for p in rest.split('"').skip(1).step_by(2) {
        let mut full = PathBuf::new();
        for part in cwd.join(p).components() {
            match part {
                std::path::Component::ParentDir => {
                    full.pop();
                }
                std::path::Component::CurDir => {}
                x => full.push(x),
            }
        }
        if !full.starts_with(dir) && !full.starts_with("/dev") && !full.starts_with("/proc") {
            return Some(full);
        }
    }
    None
}

pub type Tree = BTreeMap<PathBuf, (Vec<u8>, i64, i64, u32)>;

pub fn snapshot(dir: &Path, base: &Path, t: &mut Tree) {
    use std::os::unix::fs::MetadataExt;
    for e in std::fs::read_dir(dir).expect("read_dir") {
        let e = e.expect("read_dir");
        let m = std::fs::symlink_metadata(e.path()).expect("metadata");
        let rel = e.path().strip_prefix(base).unwrap().to_path_buf();
        if m.is_dir() {
            t.insert(rel, (b"dir".to_vec(), 0, 0, m.mode()));
            snapshot(&e.path(), base, t);
        } else if m.is_file() {
            t.insert(rel, (std::fs::read(e.path()).expect("read"), m.mtime(), m.mtime_nsec(), m.mode()));
        } else {
            t.insert(rel, (b"other".to_vec(), 0, 0, m.mode()));
        }
    }
}

pub fn tree(dir: &Path) -> Tree {
    let mut t = Tree::new();
    snapshot(dir, dir, &mut t);
    t
}

pub fn tree_diff(a: &Tree, b: &Tree, allowed: &HashSet<PathBuf>) -> Option<PathBuf> {
    for k in a.keys().chain(b.keys()) {
        if !allowed.contains(k) && a.get(k) != b.get(k) {
            return Some(k.clone());
        }
    }
    None
}

pub fn c18(cx: &Ctx) {
    cx.rule("the real generator in a scratch directory: with any other arguments than --write (no file may change), and with --write with and without injected faults (missing output directory, directory or file in the way, full disk, file size limit, missing inputs, older output), the second run at another file time, in another environment (home, time zone, language, user, processors), and once more under strace (every changed path; system calls that fail or in which the generator is killed): only outputs change, two runs give the same bytes, exit status 0 means every output is complete, and the run after a failed one puts it right; non-trivial: the arguments are not empty, or a fault is injected, or at least 3 fonts are written");
    let args = || {
        let one = prop_oneof![
            2 => Just("--write".to_string()),
            1 => prop_oneof![Just("-write"), Just("write"), Just("--Write"), Just("--WRITE"), Just("--write "), Just(" --write"), Just("--write=true"), Just("--writ"), Just("--writes"), Just("-w"), Just("--help"), Just("-h"), Just(""), Just("--"), Just("-"), Just("config.json"), Just("--force"), Just("--write\n")].prop_map(|s| s.to_string()),
            1 => "[-a-z=]{0,9}",
        ];
        proptest::collection::vec(one, 0..4)
    };
    let n = |k: usize| 0..k;
    cx.prop_shrink("arguments", cx.n(600, 10_000), cx.threads, 200, 30_000, move || (source_case(1..5, 3, 1, 0, false), args(), 1usize..6).prop_map(|(src, args, sets)| CliCase { src, args, fault: Fault::None, sets, twins: vec![] }), |c: &CliCase, o| {
        if c.args.len() == 1 && c.args[0] == "--write" {
            o.excluded = Some("the writing call (other phase)");
            return Ok(());
        }
        let dir = Scratch::new(cx);
        write_sources(&dir.0, &c.src, 0);
        if c.sets % 2 == 0 {
            // Outputs that exist already
            for n in NAMES {
                std::fs::write(dir.0.join("out").join(format!("{}.rs", n.to_lowercase())), "old").expect("write");
            }
        }
        for n in ["home", "tmp"] {
            std::fs::create_dir(dir.0.join(n)).expect("mkdir");
        }
        let before = tree(&dir.0);
        let a: Vec<&str> = c.args.iter().map(|s| s.as_str()).collect();
        let _ = codegen_elsewhere(&dir.0, &dir.0.join("gen"), &a, true);
        if let Some(p) = tree_diff(&before, &tree(&dir.0), &HashSet::new()) {
            return Err(format!("called with {:?}, the code generator changed {:?}", c.args, p));
        }
        o.nontrivial = !c.args.is_empty();
        Ok(())
    });
    let fault = move || {
        prop_oneof![
            3 => Just(Fault::None),
            2 => n(5).prop_map(Fault::NoDir),
            2 => n(5).prop_map(Fault::IsDir),
            2 => n(5).prop_map(Fault::Full),
            2 => n(5).prop_map(Fault::ParentIsFile),
            2 => (0u64..20_000).prop_map(Fault::Limit),
            1 => (n(5), 0u8..4).prop_map(|(i, k)| Fault::NoInput(i, k)),
            4 => (0u8..6, any::<u32>(), proptest::option::of(any::<bool>())).prop_map(|(kind, at, time)| Fault::Older { kind, at, time }),
        ]
    };
    cx.prop_shrink("writing", cx.n(500, 8_000), cx.threads, 100, 30_000, move || (source_case(1..20, 4, 2, 0, false), fault(), 1usize..6, prop_oneof![3 => Just(vec![]), 1 => proptest::collection::vec(0usize..5, 5)]).prop_map(|(src, fault, sets, twins)| CliCase { src, args: vec!["--write".into()], fault, sets, twins }), |c: &CliCase, o| {
        let dir = Scratch::new(cx);
        let d = &dir.0;
        write_sources(d, &c.src, 0);
        let gen = d.join("gen");
        let conf_path = gen.join("config.json");
        let mut conf: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&conf_path).unwrap()).unwrap();
        if c.twins.len() == 5 {
            // The same font may go to several files
            let all = conf["glyphSets"].clone();
            for i in 0..5 {
                conf["glyphSets"][i] = all[c.twins[i] % 5].clone();
                conf["glyphSets"][i]["rustout"] = all[i]["rustout"].clone();
            }
            o.label("fonts listed more than once (possibly)");
        }
        conf["glyphSets"].as_array_mut().unwrap().truncate(c.sets.clamp(1, 5));
        let sets = conf["glyphSets"].as_array().unwrap().len();
        let outs: Vec<PathBuf> = NAMES[..sets].iter().map(|n| PathBuf::from(format!("out/{}.rs", n.to_lowercase()))).collect();
        // What complete output looks like: a run without any fault
        std::fs::write(&conf_path, conf.to_string()).expect("write config");
        for n in ["home", "tmp"] {
            std::fs::create_dir(d.join(n)).expect("mkdir");
        }
        let before = tree(d);
        let (code, out) = codegen_elsewhere(d, &gen, &["--write"], false);
        if code != Some(0) {
            return Err(format!("the code generator failed (exit {:?}) on valid sources: {}", code, tail(&out)));
        }
        let after = tree(d);
        let allowed: HashSet<PathBuf> = outs.iter().cloned().collect();
        if let Some(p) = tree_diff(&before, &after, &allowed) {
            return Err(format!("--write changed {:?}, which is no configured output", p));
        }
        let mut good: Vec<Vec<u8>> = vec![];
        for p in &outs {
            match after.get(p) {
                Some(f) if !f.0.is_empty() => good.push(f.0.clone()),
                _ => return Err(format!("exit status 0 but {:?} was not written", p)),
            }
        }
        // Again, from the same or from a faulty state
        let mut targets: Vec<PathBuf> = outs.iter().map(|p| d.join(p)).collect();
        let wipe = |targets: &[PathBuf]| {
            for t in targets {
                let _ = std::fs::remove_file(t);
            }
        };
        let mut limit: Option<u64> = None;
        let mut full: Option<PathBuf> = None;
        let redirect = |conf: &mut serde_json::Value, i: usize, to: &str| conf["glyphSets"][i]["rustout"] = serde_json::json!(to);
        match &c.fault {
            Fault::None => {}
            Fault::Older { kind, at, time } => {
                for (p, g) in outs.iter().zip(&good) {
                    let k = *at as usize % g.len();
                    let mut old = g.clone();
                    match kind {
                        0 => {
                            old = b"// older and longer\n".to_vec();
                            old.extend_from_slice(&good[0]);
                            old.extend(std::iter::repeat(b'x').take(100_000));
                        }
                        1 => old.extend_from_slice(&g[k..]),
                        2 => old[k] ^= 1,
                        3 => old.truncate(k),
                        4 => old.clear(),
                        _ => old.fill(b' '),
                    }
                    std::fs::write(d.join(p), old).expect("write");
                    if let Some(future) = time {
                        let t = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(if *future { 4_000_000_000 } else { 1_000_000_000 });
                        std::fs::File::options().write(true).open(d.join(p)).and_then(|f| f.set_modified(t)).expect("set the time");
                    }
                }
                o.label("fault: older output");
            }
            Fault::NoDir(i) => {
                let i = i % sets;
                wipe(&targets);
                redirect(&mut conf, i, "../no/such/dir/x.rs");
                targets[i] = d.join("no/such/dir/x.rs");
                o.label("fault: missing directory");
            }
            Fault::IsDir(i) => {
                let i = i % sets;
                wipe(&targets);
                std::fs::create_dir(d.join(&outs[i])).expect("mkdir");
                o.label("fault: directory in the way");
            }
            Fault::ParentIsFile(i) => {
                let i = i % sets;
                wipe(&targets);
                std::fs::write(d.join("out/file"), "x").expect("write");
                redirect(&mut conf, i, "../out/file/x.rs");
                targets[i] = d.join("out/file/x.rs");
                o.label("fault: file in the way");
            }
            Fault::Full(i) => {
                let i = i % sets;
                wipe(&targets);
                // Writing to this device always fails with ENOSPC
                std::os::unix::fs::symlink("/dev/full", d.join(&outs[i])).expect("symlink");
                full = Some(d.join(&outs[i]));
                o.label("fault: disk full");
            }
            Fault::Limit(n) => {
                wipe(&targets);
                limit = Some(*n);
                o.label("fault: file size limit");
            }
            Fault::NoInput(i, k) => {
                let i = i % sets;
                wipe(&targets);
                let key = ["sprites", "index", "legal", "aliases"][*k as usize % 4];
                conf["glyphSets"][i][key] = serde_json::json!("no_such_file");
                o.label("fault: missing input");
            }
        }
        std::fs::write(&conf_path, conf.to_string()).expect("write config");
        touch(&gen, 1_234_567_890 + c.src.at.0 as u64);
        let before = tree(d);
        let mut cmd = Command::new(tool("PBT_CODEGEN"));
        cmd.arg("--write").current_dir(&gen);
        elsewhere(&mut cmd, d, true);
        if let Some(n) = limit {
            unsafe {
                cmd.pre_exec(move || {
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                    let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                    libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                    Ok(())
                });
            }
        }
        let (code, _) = run(&mut cmd);
        let after = tree(d);
        if let Some(p) = tree_diff(&before, &after, &allowed) {
            return Err(format!("--write changed {:?}, which is no configured output", p));
        }
        if code == Some(0) {
            for (i, t) in targets.iter().enumerate() {
                if full.as_ref() == Some(t) && std::fs::symlink_metadata(t).map_or(true, |m| m.file_type().is_symlink()) {
                    return Err(format!("exit status 0 although output {} went to a full disk", i));
                }
                let got = std::fs::read(t).ok();
                match got {
                    None => return Err(format!("exit status 0 but output {} was not written", i)),
                    Some(b) if b != good[i] => {
                        return Err(match c.fault {
                            Fault::None => format!("two runs with the same inputs gave different output {}", i),
                            _ => format!("exit status 0 but output {} is not complete and correct", i),
                        })
                    }
                    _ => {}
                }
            }
        } else if matches!(c.fault, Fault::None | Fault::Older { .. }) {
            return Err(format!("the second run with the same inputs failed (exit {:?})", code));
        }
        o.label(if code == Some(0) { "exit 0" } else { "exit not 0" });
        o.nontrivial = sets >= 3 || !matches!(c.fault, Fault::None);
        Ok(())
    });
    // Every file that the generator changes, wherever it is, and system calls that fail
    let strace = Command::new("strace").args(["-f", "-qq", "-o", "/dev/null", "true"]).status().map_or(false, |s| s.success());
    let sys = || {
        let fault = (0u8..4, 0u8..4, prop_oneof![3 => 1u32..6, 1 => 1u32..40], any::<bool>()).prop_map(|(call, error, when, on)| SysFault { call, error, when, on });
        (source_case(1..8, 4, 2, 0, false), 1usize..6, prop_oneof![1 => Just(None), 3 => fault.prop_map(Some)], any::<bool>(), prop_oneof![4 => Just(vec!["--write".to_string()]), 1 => Just(vec![]), 1 => Just(vec!["--help".to_string()])]).prop_map(|(src, sets, fault, older, args)| SysCase { src, sets, fault, older, args })
    };
    cx.prop_shrink("system calls", cx.n(96, 1_500), cx.threads, 20, 30_000, sys, |c: &SysCase, o| {
        if !strace {
            o.excluded = Some("strace does not work here");
            return Ok(());
        }
        let dir = Scratch::new(cx);
        let d = &dir.0;
        write_sources(d, &c.src, 0);
        for n in ["home", "tmp"] {
            std::fs::create_dir(d.join(n)).expect("mkdir");
        }
        let gen = d.join("gen");
        let conf_path = gen.join("config.json");
        let mut conf: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&conf_path).unwrap()).unwrap();
        conf["glyphSets"].as_array_mut().unwrap().truncate(c.sets.clamp(1, 5));
        let outs: Vec<PathBuf> = NAMES[..c.sets.clamp(1, 5)].iter().map(|n| PathBuf::from(format!("out/{}.rs", n.to_lowercase()))).collect();
        std::fs::write(&conf_path, conf.to_string()).expect("write config");
        let (code, out) = codegen_elsewhere(d, &gen, &["--write"], false);
        if code != Some(0) {
            return Err(format!("the code generator failed (exit {:?}) on valid sources: {}", code, tail(&out)));
        }
        let good: Vec<Vec<u8>> = outs.iter().map(|p| std::fs::read(d.join(p)).unwrap_or_default()).collect();
        for p in &outs {
            let _ = if c.older { std::fs::write(d.join(p), "// older\n") } else { std::fs::remove_file(d.join(p)) };
        }
        let writes = c.args.len() == 1 && c.args[0] == "--write";
        let allowed: HashSet<PathBuf> = if writes { outs.iter().cloned().collect() } else { HashSet::new() };
        let logs = Scratch::new(cx);
        let log = logs.0.join("log");
        let before = tree(d);
        let mut cmd = Command::new("strace");
        cmd.args(["-f", "-qq", "-e", "signal=none", "-o"]).arg(&log);
        match &c.fault {
            None => {
                cmd.args(["-e", "trace=%file,ftruncate,fchmod,fchown"]);
            }
            Some(f) => {
                let call = ["read", "openat", "write", "close"][f.call as usize % 4];
                let what = ["error=EIO", "error=EMFILE", "error=ENOSPC", "signal=KILL"][f.error as usize % 4];
                cmd.args(["-e", &format!("trace={}", call), "-e", &format!("inject={}:{}:when={}{}", call, what, f.when, if f.on { "+" } else { "" })]);
                o.label(["fault in read", "fault in openat", "fault in write", "fault in close"][f.call as usize % 4]);
            }
        }
        cmd.arg(tool("PBT_CODEGEN")).args(&c.args).current_dir(&gen);
        elsewhere(&mut cmd, d, true);
        let (code, _) = run(&mut cmd);
        let after = tree(d);
        if let Some(p) = tree_diff(&before, &after, &allowed) {
            return Err(format!("called with {:?}, the code generator changed {:?}", c.args, p));
        }
        let text = std::fs::read_to_string(&log).unwrap_or_default();
        if c.fault.is_none() {
            for l in text.lines() {
                if let Some(p) = changed_outside(l, &gen, d) {
                    return Err(format!("called with {:?}, the code generator changes {:?}: {}", c.args, p, l));
                }
            }
        }
        // A process that was killed leaves no line about the call
        let killed = c.fault.as_ref().map_or(false, |f| f.error % 4 == 3) && matches!(code, None | Some(137));
        let hit = killed || text.contains("INJECTED");
        if writes && code == Some(0) {
            for (i, p) in outs.iter().enumerate() {
                if std::fs::read(d.join(p)).ok().as_ref() != Some(&good[i]) {
                    return Err(format!("exit status 0 but output {} is not complete and correct", i));
                }
            }
        }
        if writes && code != Some(0) && !hit {
            return Err(format!("the second run with the same inputs failed (exit {:?})", code));
        }
        // Whatever went wrong, the next run puts it right
        if writes && code != Some(0) {
            let (code, out) = codegen_elsewhere(d, &gen, &["--write"], true);
            if code != Some(0) || outs.iter().zip(&good).any(|(p, g)| std::fs::read(d.join(p)).ok().as_ref() != Some(g)) {
                return Err(format!("after a run that failed, the next one (exit {:?}) does not write the same: {}", code, tail(&out)));
            }
            if let Some(p) = tree_diff(&before, &tree(d), &allowed) {
                return Err(format!("--write changed {:?}, which is no configured output", p));
            }
        }
        o.label(if code == Some(0) { "exit 0" } else { "exit not 0" });
        o.nontrivial = hit || c.fault.is_none();
        Ok(())
    });
    // The committed sources: any number of runs, the same bytes
    cx.each("committed sources", (0..cx.n(1, 16)).collect(), |_: &u64, o| {
        let dir = Scratch::new(cx);
        let d = &dir.0;
        copy_dir(&cx.repo.join("codegen"), &d.join("codegen"));
        copy_dir(&cx.repo.join("src"), &d.join("src"));
        let before = tree(d);
        let cg = d.join("codegen");
        let conf = read_conf(&cg).unwrap_or_else(|e| panic!("{}", e));
        let (code, out) = codegen(&cg, &["--write"]);
        if code != Some(0) {
            return Err(format!("the code generator failed (exit {:?}) on the committed sources: {}", code, tail(&out)));
        }
        let one = tree(d);
        let outs: HashSet<PathBuf> = conf.iter().filter_map(|g| d.join("codegen").join(&g.rust_out).canonicalize().ok()?.strip_prefix(d.canonicalize().unwrap()).ok().map(|p| p.to_path_buf())).collect();
        if outs.len() != conf.len() {
            return Err("exit status 0 but not every configured output exists".into());
        }
        if let Some(p) = tree_diff(&before, &one, &outs) {
            return Err(format!("--write changed {:?}, which is no configured output", p));
        }
        let (code, _) = codegen(&cg, &["--write"]);
        let two = tree(d);
        for p in &outs {
            if code != Some(0) || one[p].0 != two[p].0 {
                return Err(format!("a second run on the committed sources (exit {:?}) gave another {:?}", code, p));
            }
        }
        o.nontrivial = true;
        Ok(())
    });
}

// ---------------------------------------------------------------- C19

pub fn c19(cx: &Ctx) {
    cx.rule("one paint_str call with the committed library and with the library rebuilt from freshly generated fonts; non-trivial: some pixel inverted");
    let dir = Scratch::new(cx);
    let d = dir.0.canonicalize().expect("scratch");
    copy_dir(&cx.repo.join("codegen"), &d.join("codegen"));
    copy_dir(&cx.repo.join("src"), &d.join("src"));
    // Whatever is not generated again must not be used by accident
    let built = (|| -> Result<PathBuf, String> {
        let conf = read_conf(&d.join("codegen"))?;
        for g in &conf {
            let p = d.join("codegen").join(&g.rust_out);
            let _ = std::fs::remove_file(&p);
        }
        let (code, out) = codegen(&d.join("codegen"), &["--write"]);
        if code != Some(0) {
            return Err(format!("the code generator failed (exit {:?}) on the committed sources: {}", code, tail(&out)));
        }
        build_driver(cx, &d, "1")
    })();
    let exe = match built {
        Ok(e) => e,
        Err(m) => {
            cx.replayed.store(true, Ordering::Relaxed);
            cx.fail(Failure { property: cx.id.clone(), phase: "build".into(), message: m, case: serde_json::Value::Null, profile: cx.profile.clone() });
            return;
        }
    };
    let remotes = RemotePool::new(vec![exe.display().to_string()]);
    let check = |c: &PaintCase, o: &mut Obs| -> Res {
        let before = c.fb.build();
        let mut fb = before.clone();
        let mut k = c.cur;
        paint_lib(&mut fb, c.clip, &mut k, c.style, &c.text)?;
        remotes.with(|r| {
            r.set(c.fb)?;
            let mut k2 = c.cur;
            let h = r.paint(c.clip, &mut k2, c.style, &c.text).map_err(|e| format!("with regenerated fonts: {}", e))?;
            cur_diff("committed fonts against regenerated fonts", k, k2)?;
            let what = "regenerated fonts against committed fonts";
            r.same_fb(what, h, &fb[..])
        })?;
        o.nontrivial = fb != before;
        Ok(())
    };
    let p = Arc::new(Pool::new(&cx.fonts));
    let mut cases = vec![];
    for s in p.ascii.iter().chain(&p.latin).chain(&p.nfd).chain(&p.emoji1).chain(&p.emoji_n).chain(&p.hanzi).chain(&p.prefixes).chain(&p.bounds).chain(&p.parts) {
        for st in 0..3 {
            cases.push(PaintCase { fb: FbSpec::Zero, clip: [0, 0, W, H], cur: [9, 9, 0], style: st, text: s.clone() });
        }
    }
    cx.each("every cluster", cases, check);
    cx.exhaustive("every cluster, alias, proper prefix of a cluster and block boundary in every style");
    let pp = p.clone();
    cx.prop("random", cx.n(60_000, 1_500_000), move || paint_case(with_cursor(any_clip()), text(&pp)), check);
    // Every scalar value, many to a call
    let scalars = cx.tier == Tier::Thorough;
    let mut cases = vec![];
    let step = if scalars { 64 } else { 256 };
    let mut n = 0u32;
    while n < 0x110000 {
        let t: String = (n..n + step).filter_map(char::from_u32).collect();
        if !t.is_empty() {
            for st in 0..3 {
                cases.push(PaintCase { fb: FbSpec::Zero, clip: [0, 0, W, H], cur: [0, 0, 0], style: st, text: t.clone() });
            }
        }
        n += step;
    }
    let smaller = |c: &PaintCase| {
        let cs: Vec<char> = c.text.chars().collect();
        if cs.len() < 2 {
            return vec![];
        }
        let (a, b) = cs.split_at(cs.len() / 2);
        vec![PaintCase { text: a.iter().collect(), ..c.clone() }, PaintCase { text: b.iter().collect(), ..c.clone() }]
    };
    cx.each_shrink("runs of scalars", cases, smaller, check);
    let mut cases = vec![];
    for (st, s) in representatives(&cx.fonts) {
        for x in 0..32 {
            cases.push(PaintCase { fb: FbSpec::Zero, clip: [0, 0, W, H], cur: [x, x, 0], style: st, text: s.clone() });
        }
    }
    cx.each("alignments", cases, check);
}
