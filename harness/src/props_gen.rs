//! More properties of the code generator (C23 to C27, C29): what it refuses, hash
//! collisions, legal notices, independence of fonts, announcements, labels.

use crate::engine::*;
use crate::oracle::*;
use crate::png;
use crate::props_codegen::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::Command;

fn read_json(p: &Path) -> serde_json::Value {
    serde_json::from_slice(&std::fs::read(p).expect("read")).expect("json")
}

fn write_json(p: &Path, v: &serde_json::Value) {
    std::fs::write(p, v.to_string()).expect("write");
}

fn out_path(name: &str) -> PathBuf {
    PathBuf::from(format!("out/{}.rs", name.to_lowercase()))
}

// ---------------------------------------------------------------- C23

/// One thing that is wrong with the sources of one font
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mistake {
    /// Nothing is wrong (the control)
    None,
    /// This instead of one code point of a cluster in the index (false) or the alias list
    CodePoint { text: String, in_alias: bool, canon: bool, at: u32 },
    /// A cluster that starts in no supported Unicode block
    NoBlock { first: u32, in_alias: bool, tail: bool },
    /// An alias of a cluster that is not in the index
    AliasOfNothing(String),
    /// An alias of a cluster that is not in the index, while another one with the same hash is
    AliasOfTwin { block: usize, search: u64, alias: bool },
    /// An alias line with other than two clusters
    AliasFields { fields: Vec<String>, sep: u8 },
    /// The cell of an entry in a json index lies outside of the grid
    CellRow(i64),
    CellCol(i64),
    /// The sprite sheet ends within the cell of an entry
    Cropped { right: bool, by: usize },
    /// Glyphs wider than the 32 px the library can paint, or higher than the format can say
    TooWide(usize),
    /// A file that is cut short, or is something else
    Truncated { file: u8, keep: u32 },
    BadPng { flip: u32 },
    IndexType(String),
    Seed(String),
    /// Cells of no size, or of more than the format can say
    Size(i64),
    /// A grid without columns
    Cols(i64),
    /// A value of another kind in the configuration
    Value { key: u8, value: String },
    NoConfig,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MistakeCase {
    pub src: SourceCase,
    pub font: usize,
    pub entry: u32,
    pub mistake: Mistake,
    pub older: bool,
}

/// Index and alias files as lines
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReadCase {
    pub font: usize,
    pub cols: usize,
    pub size: usize,
    pub noise: u64,
    /// Newline at the end
    pub last: bool,
    /// Cluster (or none), and the line
    pub index: Vec<(String, String)>,
    pub aliases: Vec<String>,
    /// Cells, for a json index
    pub cells: Option<Vec<(i64, i64)>>,
    /// Leave out the last row of the sheet
    pub less: usize,
}

fn bad_code_point() -> BoxedStrategy<String> {
    prop_oneof![
        // Not hexadecimal
        3 => prop_oneof![Just(""), Just("g1"), Just("0x41"), Just("U+41"), Just("+41"), Just("4_1"), Just("4 1"), Just("41,"), Just("."), Just("１"), Just("\"41\""), Just("41h"), Just("--"), Just("1f6oo"), Just("/"), Just("4\u{301}1")].prop_map(|s| s.to_string()),
        1 => "[g-z]{1,4}",
        // Not Unicode scalar values
        3 => (0xd800u32..0xe000).prop_map(|n| format!("{:x}", n)),
        1 => prop_oneof![Just(0xd800u32), Just(0xdfff), Just(0x110000), Just(0x110041), Just(0x7fffffff), Just(0x80000000), Just(0xffffffff)].prop_map(|n| format!("{:X}", n)),
        1 => (0x110000u32..=u32::MAX).prop_map(|n| format!("{:x}", n)),
        1 => prop_oneof![Just("100000041".to_string()), Just("10000000000000041".to_string())],
    ]
    .boxed()
}

fn mistake() -> BoxedStrategy<Mistake> {
    let no_block = (0x180u32..0x110000).prop_filter("in a block", |n| char::from_u32(*n).is_some() && block_of(*n).is_none());
    let near = (0..BLOCKS.len(), any::<bool>()).prop_map(|(b, low)| if low { BLOCKS[b].0.wrapping_sub(1) } else { BLOCKS[b].1 + 1 }).prop_filter("in a block", |n| *n < 0x110000 && char::from_u32(*n).is_some() && block_of(*n).is_none());
    let field = prop_oneof![Just("41".to_string()), Just("1f600".to_string()), Just("e9".to_string()), Just("61-301".to_string())];
    prop_oneof![
        2 => Just(Mistake::None),
        6 => (bad_code_point(), any::<bool>(), any::<bool>(), any::<u32>()).prop_map(|(text, in_alias, canon, at)| Mistake::CodePoint { text, in_alias, canon, at }),
        3 => (prop_oneof![no_block, near], any::<bool>(), any::<bool>()).prop_map(|(first, in_alias, tail)| Mistake::NoBlock { first, in_alias, tail }),
        2 => cluster(4).prop_map(Mistake::AliasOfNothing),
        1 => (0..BLOCKS.len(), any::<u64>(), any::<bool>()).prop_map(|(block, search, alias)| Mistake::AliasOfTwin { block, search, alias }),
        3 => (prop_oneof![1 => proptest::collection::vec(field.clone(), 1..2), 2 => proptest::collection::vec(field, 3..6)], 0u8..3).prop_map(|(fields, sep)| Mistake::AliasFields { fields, sep }),
        2 => prop_oneof![Just(-1i64), Just(-2), -100_000i64..0, 0i64..3, 0i64..1_000_000].prop_map(Mistake::CellRow),
        2 => prop_oneof![Just(-1i64), Just(-2), -100_000i64..0, 0i64..3, 0i64..1_000_000].prop_map(Mistake::CellCol),
        3 => (any::<bool>(), 0usize..33).prop_map(|(right, by)| Mistake::Cropped { right, by }),
        2 => prop_oneof![Just(33usize), Just(34), 33usize..61].prop_map(Mistake::TooWide),
        2 => (0u8..3, any::<u32>()).prop_map(|(file, keep)| Mistake::Truncated { file, keep }),
        2 => any::<u32>().prop_map(|flip| Mistake::BadPng { flip }),
        1 => prop_oneof![Just("".to_string()), Just("txt".to_string()), Just("TXT-ROW-MAJOR".to_string()), Just("json".to_string()), Just("json-grid-coord ".to_string()), "[a-z-]{1,15}"].prop_map(Mistake::IndexType),
        1 => prop_oneof![Just("-1"), Just("4294967296"), Just("1.5"), Just("\"0\""), Just("1e10"), Just("true"), Just("[]")].prop_map(|s| Mistake::Seed(s.to_string())),
        2 => prop_oneof![Just(0i64), Just(-1), -40i64..0, Just(256), 256i64..400, Just(-250)].prop_map(Mistake::Size),
        1 => prop_oneof![Just(0i64), Just(-1), -40i64..0].prop_map(Mistake::Cols),
        1 => (any::<u8>(), prop_oneof![Just("[]"), Just("{}"), Just("true"), Just("1.5"), Just("\"1\""), Just("\"\""), Just("1e30"), Just("[1]")]).prop_map(|(key, v)| Mistake::Value { key, value: v.to_string() }),
        1 => Just(Mistake::NoConfig),
    ]
    .boxed()
}

/// The clusters of an index file as they were written: (hex, row, col)
fn cells(gen: &Path, conf: &serde_json::Value) -> Vec<(String, i64, i64)> {
    let p = gen.join(conf["index"].as_str().unwrap());
    let cols = conf["cols"].as_i64().unwrap();
    if conf["indexType"] == "json-grid-coord" {
        let v = read_json(&p);
        v["map"].as_array().unwrap().iter().map(|e| (e["hex"].as_str().unwrap().to_string(), e["row"].as_i64().unwrap(), e["col"].as_i64().unwrap())).collect()
    } else {
        let t = std::fs::read_to_string(&p).expect("read");
        t.lines().map(|l| l.split('#').next().unwrap().trim().to_string()).filter(|l| !l.is_empty()).enumerate().map(|(i, h)| (h, i as i64 / cols, i as i64 % cols)).collect()
    }
}

/// Replace the hex of the entry'th cluster of the index
fn edit_index(gen: &Path, conf: &serde_json::Value, entry: usize, hex: &str) {
    let p = gen.join(conf["index"].as_str().unwrap());
    if conf["indexType"] == "json-grid-coord" {
        let mut v = read_json(&p);
        v["map"][entry]["hex"] = serde_json::json!(hex);
        write_json(&p, &v);
    } else {
        let t = std::fs::read_to_string(&p).expect("read");
        let mut n = 0;
        let mut out = String::new();
        for l in t.lines() {
            if l.split('#').next().unwrap().trim().is_empty() {
                out += l;
            } else {
                out += if n == entry { hex } else { l };
                n += 1;
            }
            out.push('\n');
        }
        std::fs::write(&p, out).expect("write");
    }
}

/// The font as the oracle reads it
fn read_conf_of(gen: &Path, conf: &serde_json::Value, i: usize) -> Font {
    let p = gen.join("config.json");
    let mut all = read_json(&p);
    all["glyphSets"][i] = conf.clone();
    write_json(&p, &all);
    let g = read_conf(gen).unwrap_or_else(|e| panic!("{}", e)).swap_remove(i);
    load_font(gen, &g).unwrap_or_else(|e| panic!("{}", e))
}

fn add_alias_line(gen: &Path, conf: &mut serde_json::Value, line: &str, at: u32) {
    let name = format!("{}aliases.txt", conf["index"].as_str().unwrap().trim_end_matches("index"));
    let p = gen.join(&name);
    let t = std::fs::read_to_string(&p).expect("read");
    let mut v: Vec<&str> = t.lines().collect();
    v.insert(at as usize % (v.len() + 1), line);
    std::fs::write(&p, v.join("\n") + "\n").expect("write");
    conf["aliases"] = serde_json::json!(name);
}

/// Put the mistake into the sources; Err when this case has no place for it
fn spoil(c: &MistakeCase, gen: &Path, i: usize, conf: &mut serde_json::Value) -> Result<&'static str, &'static str> {
    let name = NAMES[i];
    let cs = cells(gen, conf);
    if cs.is_empty() {
        return Err("a font without clusters");
    }
    let e = c.entry as usize % cs.len();
    let hex = cs[e].0.clone();
    let json = conf["indexType"] == "json-grid-coord";
    let put = |hex: &str, text: &str, at: u32| -> String {
        let mut v: Vec<&str> = hex.split('-').collect();
        let n = v.len() + 1;
        let k = at as usize % n;
        if k == v.len() {
            v.push(text);
        } else {
            v[k] = text;
        }
        v.join("-")
    };
    match &c.mistake {
        Mistake::None => Ok("nothing wrong"),
        Mistake::CodePoint { text, in_alias, canon, at } => {
            let bad = put(&hex, text, *at);
            if *in_alias {
                if bad.is_empty() || bad.split_whitespace().count() != 1 {
                    return Err("no cluster at all");
                }
                let line = if *canon { format!("{} 41-41-41-41", bad) } else { format!("{} {}", hex, bad) };
                add_alias_line(gen, conf, &line, c.entry);
                Ok("bad code point in an alias")
            } else {
                if !json && bad.trim().is_empty() {
                    return Err("no cluster at all");
                }
                edit_index(gen, conf, e, &bad);
                Ok("bad code point in the index")
            }
        }
        Mistake::NoBlock { first, in_alias, tail } => {
            let bad = if *tail { format!("{:x}-301", first) } else { format!("{:X}", first) };
            if *in_alias {
                add_alias_line(gen, conf, &format!("{} {}", hex, bad), c.entry);
            } else {
                edit_index(gen, conf, e, &bad);
            }
            Ok("no supported Unicode block")
        }
        Mistake::AliasOfNothing(s) => {
            let first = s.chars().next().unwrap() as u32;
            // Not one that is there
            let f = read_conf_of(gen, conf, i);
            if block_of(first).is_none() || f.entries.iter().any(|(t, _)| t == s) {
                return Err("it is there");
            }
            add_alias_line(gen, conf, &format!("{} 41-41-41-41", hex_of(s, false)), c.entry);
            Ok("alias of a cluster that is not in the index")
        }
        Mistake::AliasOfTwin { block, search, alias } => {
            let seed = conf["m3Seed"].as_u64().unwrap() as u32;
            let (a, b) = match find_clash(seed, *block, None, *search) {
                Some(p) => p,
                None => return Err("no clash found"),
            };
            let f = read_conf_of(gen, conf, i);
            if f.entries.iter().any(|(t, _)| *t == a || *t == b) {
                return Err("it is there");
            }
            if *alias {
                add_alias_line(gen, conf, &format!("{} {}", hex, hex_of(&a, false)), c.entry / 7);
            } else {
                edit_index(gen, conf, e, &hex_of(&a, false));
                // (aliases of the cluster that was there would be a mistake of their own)
                if f.entries.iter().filter(|x| x.1 == f.entries[e].1).count() > 1 {
                    return Err("it has aliases");
                }
            }
            add_alias_line(gen, conf, &format!("{} 41-41-41-41", hex_of(&b, false)), c.entry);
            Ok("alias of a cluster that is not in the index, with the hash of one that is")
        }
        Mistake::AliasFields { fields, sep } => {
            let mut f = fields.clone();
            f[0] = hex;
            add_alias_line(gen, conf, &f.join([" ", "\t", "  "][*sep as usize % 3]), c.entry);
            Ok("alias line without exactly two clusters")
        }
        Mistake::CellRow(n) | Mistake::CellCol(n) => {
            if !json {
                return Err("no coordinates in a text index");
            }
            let p = gen.join(conf["index"].as_str().unwrap());
            let mut v = read_json(&p);
            let rows = cs.iter().map(|c| c.1).max().unwrap() + 1;
            if let Mistake::CellRow(n) = &c.mistake {
                let num = |k: &str| conf[k].as_i64().unwrap();
                let img = png::decode(&std::fs::read(gen.join(conf["sprites"].as_str().unwrap())).expect("read")).expect("png");
                if *n >= 0 && num("border") + (rows + n) * (num("size") + num("gutter")) + num("size") <= img.h as i64 {
                    return Err("there is room for one more row");
                }
            }
            if matches!(c.mistake, Mistake::CellRow(_)) {
                v["map"][e]["row"] = serde_json::json!(if *n < 0 { *n } else { rows + n });
            } else {
                v["map"][e]["col"] = serde_json::json!(if *n < 0 { *n } else { conf["cols"].as_i64().unwrap() + n });
            }
            write_json(&p, &v);
            Ok("cell outside of the grid")
        }
        Mistake::Cropped { right, by } => {
            let (size, gutter, border) = (conf["size"].as_u64().unwrap() as usize, conf["gutter"].as_u64().unwrap() as usize, conf["border"].as_u64().unwrap() as usize);
            let p = gen.join(conf["sprites"].as_str().unwrap());
            let img = png::decode(&std::fs::read(&p).expect("read")).expect("png");
            let last = cs.iter().map(|c| if *right { c.2 } else { c.1 }).max().unwrap() as usize;
            let end = border + last * (size + gutter) + size;
            let keep = end.saturating_sub(1 + by % size);
            if keep == 0 {
                return Err("nothing left of the sheet");
            }
            let (w, h) = if *right { (keep, img.h) } else { (img.w, keep) };
            let dark: Vec<bool> = (0..w * h).map(|k| img.is_dark(k % w, k / w)).collect();
            let format = png::FORMATS[c.entry as usize % png::FORMATS.len()];
            std::fs::write(&p, png::encode(w, h, &dark, format)).expect("write");
            Ok("sprite sheet ends within a cell")
        }
        Mistake::TooWide(n) => {
            let mut f = c.src.fonts[i].clone();
            f.size = *n;
            f.spread = true;
            for e in f.entries.iter_mut() {
                // Ink on both sides: whatever is trimmed, more than 32 columns are left
                e.art = Art::Full;
            }
            if f.entries.is_empty() {
                return Err("a font without clusters");
            }
            *conf = write_font(gen, &f, name, f.order);
            let now = read_conf_of(gen, conf, i);
            if now.glyphs.iter().all(|g| g.w <= 32) {
                return Err("no glyph of full width");
            }
            Ok("glyphs wider than 32 px")
        }
        Mistake::Truncated { file, keep } => {
            let (key, what) = [("sprites", "sprite sheet cut short"), ("index", "json index cut short"), ("config", "config cut short")][*file as usize % 3];
            let p = match key {
                "config" => return Ok(what),
                "index" if !json => return Err("a text index has no end of its own"),
                k => gen.join(conf[k].as_str().unwrap()),
            };
            let b = std::fs::read(&p).expect("read");
            // Not only the end of the end chunk of the image
            let n = *keep as usize % (b.len() - if key == "sprites" { 12 } else { 0 });
            std::fs::write(&p, &b[..n]).expect("write");
            Ok(what)
        }
        Mistake::BadPng { flip } => {
            let p = gen.join(conf["sprites"].as_str().unwrap());
            let mut b = std::fs::read(&p).expect("read");
            // Somewhere in the signature or in the type and the data of the header: covered by its checksum
            let k = [0usize, 1, 2, 3, 4, 5, 6, 7, 12, 13, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 29, 30][*flip as usize % 22];
            b[k] ^= 1 << (flip >> 16 & 7);
            std::fs::write(&p, b).expect("write");
            Ok("damaged image file")
        }
        Mistake::IndexType(t) => {
            if t == "txt-row-major" || t == "json-grid-coord" {
                return Err("a valid index type");
            }
            conf["indexType"] = serde_json::json!(t);
            Ok("unknown index type")
        }
        Mistake::Seed(s) => {
            conf["m3Seed"] = serde_json::from_str(s).expect("json");
            Ok("hash seed that is no 32-bit number")
        }
        Mistake::Size(n) => {
            conf["size"] = serde_json::json!(n);
            if *n > 0 {
                // A sheet of one column of such cells, each with a little ink
                let size = *n as usize;
                let (w, h) = (size, cs.len() * size);
                let mut dark = vec![false; w * h];
                for k in 0..cs.len() {
                    let (x, y) = (mix(c.src.fonts[i].noise, k as u64) as usize % (size - 9), c.entry as usize % (size - 9).min(240));
                    for j in 0..9 {
                        dark[(k * size + y + j) * w + x + k % 9] = true;
                    }
                }
                for (k, v) in [("cols", 1), ("border", 0), ("gutter", 0)] {
                    conf[k] = serde_json::json!(v);
                }
                if json {
                    let p = gen.join(conf["index"].as_str().unwrap());
                    let mut v = read_json(&p);
                    for k in 0..cs.len() {
                        v["map"][k]["row"] = serde_json::json!(k);
                        v["map"][k]["col"] = serde_json::json!(0);
                    }
                    write_json(&p, &v);
                }
                conf["glyphTrim"] = serde_json::json!("proportional");
                std::fs::write(gen.join(conf["sprites"].as_str().unwrap()), png::encode(w, h, &dark, png::FORMATS[c.entry as usize % png::FORMATS.len()])).expect("write");
            }
            Ok("cells that are not 1 to 255 px")
        }
        Mistake::Cols(n) => {
            conf["cols"] = serde_json::json!(n);
            Ok("no columns")
        }
        Mistake::Value { key, value } => {
            let keys = ["name", "m3Seed", "sprites", "size", "cols", "gutter", "border", "legal", "index", "indexType", "aliases", "glyphTrim", "rustout"];
            let k = keys[*key as usize % keys.len()];
            let v: serde_json::Value = serde_json::from_str(value).expect("json");
            // (a number may be written as 1e0, but none of these is whole and small)
            if v.is_string() && conf[k].is_string() {
                return Err("a value of the right kind");
            }
            conf[k] = v;
            Ok("a value of the wrong kind in the configuration")
        }
        Mistake::NoConfig => Ok("no config"),
    }
}

pub fn c23(cx: &Ctx) {
    cx.rule("valid sources of 1 to 5 fonts with one mistake in one of them (bad hex, code points that are no scalar values or in no supported block, aliases of nothing, alias lines without two clusters, cells outside of the grid or the sheet, glyphs too wide, damaged or short files, bad config): the real generator must not exit with 0 nor write the font in question; without a mistake it must succeed; index and alias files made of pieces that may mean something or not: accepted, and then as the reference reader reads them, or refused, just as that reader does; non-trivial: a mistake was made, or the text was refused, or at least two clusters were read");
    let strat = || (source_case(1..12, 4, 2, 0, false), 0usize..5, any::<u32>(), mistake(), any::<bool>()).prop_map(|(src, font, entry, mistake, older)| MistakeCase { src, font, entry, mistake, older });
    cx.prop_shrink("mistakes", cx.n(4_000, 60_000), cx.threads, 200, 30_000, strat, |c: &MistakeCase, o| {
        let dir = Scratch::new(cx);
        let d = &dir.0;
        write_sources(d, &c.src, 0);
        let gen = d.join("gen");
        let i = c.font % 5;
        let conf_path = gen.join("config.json");
        let mut conf = read_json(&conf_path);
        let mut mine = conf["glyphSets"][i].clone();
        let what = match spoil(c, &gen, i, &mut mine) {
            Ok(w) => w,
            Err(e) => {
                o.excluded = Some(e);
                return Ok(());
            }
        };
        o.label(what);
        conf["glyphSets"][i] = mine;
        write_json(&conf_path, &conf);
        match &c.mistake {
            Mistake::NoConfig => std::fs::remove_file(&conf_path).expect("remove"),
            Mistake::Truncated { file: 2, keep } => {
                let t = conf.to_string();
                let mut n = *keep as usize % t.len();
                while !t.is_char_boundary(n) {
                    n -= 1;
                }
                std::fs::write(&conf_path, &t[..n]).expect("write");
            }
            _ => {}
        }
        let outs: Vec<PathBuf> = NAMES.iter().map(|n| out_path(n)).collect();
        if c.older {
            for p in &outs {
                std::fs::write(d.join(p), "// older\n").expect("write");
            }
        }
        let before = tree(d);
        let (code, out) = codegen(&gen, &["--write"]);
        let after = tree(d);
        let fine = matches!(c.mistake, Mistake::None);
        let no_config = matches!(c.mistake, Mistake::NoConfig | Mistake::Truncated { file: 2, .. });
        let allowed: HashSet<PathBuf> = outs.iter().enumerate().filter(|(k, _)| fine || (*k != i && !no_config)).map(|(_, p)| p.clone()).collect();
        if let Some(p) = tree_diff(&before, &after, &allowed) {
            return Err(format!("{} in the sources of {}: the code generator (exit {:?}) wrote {:?}", what, NAMES[i], code, p));
        }
        if !fine && code == Some(0) {
            return Err(format!("{} in the sources of {}: the code generator exits with 0", what, NAMES[i]));
        }
        if code.is_none() {
            return Err(format!("{} in the sources of {}: the code generator was killed or did not end", what, NAMES[i]));
        }
        if fine && code != Some(0) {
            let v: Vec<char> = out.chars().collect();
            return Err(format!("the code generator failed (exit {:?}) on valid sources: {}", code, v[v.len().saturating_sub(600)..].iter().collect::<String>()));
        }
        o.nontrivial = !fine;
        Ok(())
    });
    // Index and alias files made of pieces that may or may not mean something: they are
    // accepted exactly if the reference reader accepts them, and then read alike
    let bad = || prop_oneof![Just(""), Just("g"), Just("+41"), Just("0x41"), Just("378"), Just("d800"), Just("110000"), Just("\u{ff14}1"), Just("41 42"), Just("\u{feff}41"), Just("\0"), Just("4\r1"), Just("1_0"), Just("100000041"), Just("41\u{2028}42")];
    let code = move || {
        prop_oneof![
            60 => prop_oneof![Just("41"), Just("42"), Just("43"), Just("e9"), Just("1f600"), Just("4e00"), Just("20000"), Just("0041"), Just("00000000000000042"), Just("1F600"), Just("E9"), Just("0"), Just("a"), Just("23"), Just("2028"), Just("fFfD"), Just("fffe"), Just("ffff"), Just("2a6df"), Just("30000")].prop_map(|s| s.to_string()),
            30 => (0u32..0x180).prop_map(|n| format!("{:x}", n)),
            1 => bad().prop_map(|s| s.to_string()),
        ]
    };
    let tail = || prop_oneof![Just("301"), Just("fe0f"), Just("200D"), Just("10ffff"), Just("10FFFE"), Just("e0061"), Just("0"), Just("41"), Just("d7ff"), Just("E000"), Just("0000301")].prop_map(|s| s.to_string());
    let word = move || (code(), prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(tail(), 1..4)]).prop_map(|(c, t)| std::iter::once(c).chain(t).collect::<Vec<_>>().join("-"));
    let deco = || prop_oneof![12 => Just(""), 1 => Just(" "), 1 => Just("\t"), 1 => Just("\r"), 1 => Just("#"), 1 => Just(" # 41"), 1 => Just("#-1"), 1 => Just("\u{a0}"), 1 => Just("\u{3000}"), 1 => Just("\u{b}"), 1 => Just("\u{85}"), 1 => Just("\u{2028}")].prop_map(|s| s.to_string());
    let blank = || prop_oneof![Just(""), Just("#"), Just("  "), Just("# 41"), Just("\t\r"), Just("#\u{e9}")].prop_map(|s| s.to_string());
    let lead = || prop_oneof![12 => Just(""), 1 => Just(" "), 1 => Just("\t"), 1 => Just("\u{a0}"), 1 => Just("\r")].prop_map(|s| s.to_string());
    let index_line = move || prop_oneof![9 => (lead(), word(), deco()).prop_map(|(l, w, d)| (w.clone(), l + &w + &d)), 2 => blank().prop_map(|b| (String::new(), b))];
    let sep = || prop_oneof![20 => Just(" "), 2 => Just("\t"), 2 => Just("   "), 1 => Just("\u{a0}"), 1 => Just("\u{3000}"), 1 => Just(" # "), 1 => Just("-"), 1 => Just(" 41 ")].prop_map(|s| s.to_string());
    let alias_line = move || (lead(), any::<u32>(), sep(), word(), deco(), blank(), 0u8..20).prop_map(|(l, k, s, w, d, b, r)| (l, k, s, w, d, b, r));
    let cell = || prop_oneof![12 => (0i64..4, 0i64..4), 1 => (-1i64..6, -1i64..6)].prop_map(|(r, c)| (r, c));
    let strat = move || {
        ((0usize..5, 1usize..6, 4usize..13, any::<u64>(), any::<bool>()), proptest::collection::vec(index_line(), 0..14), proptest::collection::vec(alias_line(), 0..6), proptest::option::of(proptest::collection::vec(cell(), 14)), 0usize..3).prop_map(|((font, cols, size, noise, last), index, aliases, cells, less)| {
            // No line may be broken by its decoration, so that lines are what they seem
            let known: Vec<String> = index.iter().filter(|x| !x.0.is_empty()).map(|x| x.0.clone()).collect();
            let mut made: Vec<String> = known.clone();
            let mut al = vec![];
            for (l, k, s, w, d, b, r) in aliases {
                if r == 0 || made.is_empty() {
                    al.push(b);
                    continue;
                }
                let canon = if r == 1 { w.clone() + "-41" } else { made[k as usize % made.len()].clone() };
                al.push(format!("{}{}{}{}{}", l, canon, s, w, d));
                made.push(w);
            }
            ReadCase { font, cols, size, noise, last, index, aliases: al, cells, less }
        })
    };
    cx.prop_shrink("texts", cx.n(3_000, 60_000), cx.threads, 300, 30_000, strat, |c: &ReadCase, o| {
        let dir = Scratch::new(cx);
        let d = &dir.0;
        let gen = d.join("gen");
        std::fs::create_dir_all(&gen).expect("mkdir");
        std::fs::create_dir_all(d.join("out")).expect("mkdir");
        let n = c.index.iter().filter(|x| !x.0.is_empty()).count();
        let rows = (n.max(1) - 1) / c.cols + 1;
        let (w, h) = (2 + c.cols * (c.size + 1), 2 + if c.cells.is_some() { 4 } else { rows.saturating_sub(c.less / 2).max(1) } * (c.size + 1));
        let dark: Vec<bool> = (0..w * h).map(|k| mix(c.noise, k as u64) % 3 == 0).collect();
        std::fs::write(gen.join("s.png"), png::encode(w, h, &dark, png::FORMATS[c.noise as usize % png::FORMATS.len()])).expect("write");
        let end = if c.last { "\n" } else { "" };
        let mut in_grid = true;
        let index = match &c.cells {
            Some(cells) => {
                let map: Vec<_> = c.index.iter().filter(|x| !x.0.is_empty()).zip(cells).map(|(x, (row, col))| {
                    in_grid &= *row >= 0 && *col >= 0 && (*col as usize) < c.cols;
                    serde_json::json!({"hex": x.0, "row": row, "col": col})
                }).collect();
                serde_json::json!({ "map": map }).to_string()
            }
            None => c.index.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join("\n") + end,
        };
        std::fs::write(gen.join("index"), index).expect("write");
        std::fs::write(gen.join("aliases"), c.aliases.join("\n") + end).expect("write");
        let conf = serde_json::json!({"glyphSets": [{
            "name": NAMES[c.font], "m3Seed": c.noise as u32, "sprites": "s.png", "size": c.size, "cols": c.cols, "gutter": 1, "border": 1, "legal": "",
            "index": "index", "indexType": if c.cells.is_some() { "json-grid-coord" } else { "txt-row-major" }, "aliases": "aliases", "glyphTrim": "proportional", "rustout": "../out/x.rs"}]});
        write_json(&gen.join("config.json"), &conf);
        let g = read_conf(&gen).expect("configuration").swap_remove(0);
        let model = match load_font(&gen, &g) {
            Ok(f) if in_grid => Ok(f),
            Ok(_) => Err("a cell outside of the grid".to_string()),
            Err(e) => Err(e),
        };
        if model.as_ref().err().map_or(false, |e| e.contains("listed twice")) {
            // (left to the unit test in the file, C24)
            o.excluded = Some("a cluster that is listed twice");
            return Ok(());
        }
        let (code, out) = codegen(&gen, &["--write"]);
        let text = std::fs::read_to_string(d.join("out/x.rs")).ok();
        match model {
            Ok(f) => {
                if code != Some(0) {
                    return Err(format!("the code generator failed (exit {:?}) on valid sources: {}", code, out.chars().take(300).collect::<String>()));
                }
                check_font_file(&text.ok_or("exit status 0 but nothing written")?, &f)?;
                o.label("accepted");
                o.nontrivial = n > 1;
            }
            Err(e) => {
                if code == Some(0) || text.is_some() {
                    return Err(format!("{}: the code generator exits with {:?}, a font file was {}written", e, code, if text.is_some() { "" } else { "not " }));
                }
                o.label("refused");
                o.nontrivial = true;
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Clash {
    None,
    /// Two clusters of one block have the same hash
    Hash,
    /// The same cluster twice
    Same,
    /// The same hash in different blocks: no clash, as the tables are searched block by block
    OtherBlock,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ClashCase {
    pub src: SourceCase,
    pub font: usize,
    pub clash: Clash,
    pub block: usize,
    pub search: u64,
    /// Which of the two are aliases
    pub alias: (bool, bool),
    pub at: u32,
}

/// Two different texts with one hash, by a search over texts of three code points
fn find_clash(seed: u32, block: usize, other: Option<usize>, search: u64) -> Option<(String, String)> {
    let mut seen: HashMap<u32, String> = HashMap::new();
    for k in 0..600_000u64 {
        let b = if other.is_some() && k % 2 == 1 { other.unwrap() } else { block };
        let (l, h) = BLOCKS[b];
        let r = mix(search, k + 1);
        let first = char::from_u32(l + (r % (h - l + 1) as u64) as u32);
        let more: Vec<Option<char>> = (1..3).map(|n| char::from_u32((mix(r, n) % 0x3000) as u32 + 0x20)).collect();
        let s: Option<String> = std::iter::once(first).chain(more).collect();
        let s = match s {
            Some(s) if !s.starts_with('\n') => s,
            _ => continue,
        };
        let key = murmur3(&s, seed);
        match seen.get(&key) {
            Some(t) if *t != s && (other.is_none() || block_of(t.chars().next().unwrap() as u32) != block_of(s.chars().next().unwrap() as u32)) => return Some((t.clone(), s)),
            Some(_) => {}
            None => {
                seen.insert(key, s);
            }
        }
    }
    None
}

pub fn c24(cx: &Ctx) {
    cx.rule("sources in which two clusters or aliases of one Unicode block have the same hash (found by search), or the same cluster is listed twice, or the same hash is in different blocks, or nothing clashes: the generator refuses them, or the unit tests of the generated font file fail, exactly when there is a clash; non-trivial: an equal hash was planted");
    let strat = || {
        let clash = prop_oneof![1 => Just(Clash::None), 4 => Just(Clash::Hash), 2 => Just(Clash::Same), 2 => Just(Clash::OtherBlock)];
        (source_case(1..10, 3, 1, 0, false), 0usize..5, clash, 0..BLOCKS.len(), any::<u64>(), any::<(bool, bool)>(), any::<u32>()).prop_map(|(mut src, font, clash, block, search, alias, at)| {
            // Any cell has to do for the added clusters, also one of noise
            src.fonts.iter_mut().for_each(|f| f.size = f.size.min(32));
            ClashCase { src, font, clash, block, search, alias, at }
        })
    };
    let rustc = tool("PBT_RUSTC");
    cx.prop_shrink("clashes", cx.n(100, 2_000), cx.threads, 25, 60_000, strat, |c: &ClashCase, o| {
        let dir = Scratch::new(cx);
        let d = &dir.0;
        let i = c.font % 5;
        let seed = c.src.fonts[i].m3_seed;
        write_sources(d, &c.src, 0);
        let gen = d.join("gen");
        let conf_path = gen.join("config.json");
        let mut conf = read_json(&conf_path);
        let mut mine = conf["glyphSets"][i].clone();
        let cs = cells(&gen, &mine);
        if cs.is_empty() {
            o.excluded = Some("a font without clusters");
            return Ok(());
        }
        // The clusters that are there already
        let have: Vec<String> = read_conf_of(&gen, &mine, i).entries.iter().map(|(s, _)| s.clone()).collect();
        let other = if matches!(c.clash, Clash::OtherBlock) { Some((c.block + 1 + c.at as usize % (BLOCKS.len() - 1)) % BLOCKS.len()) } else { None };
        let pair = match c.clash {
            Clash::None => None,
            Clash::Same => {
                let s = have[c.at as usize % have.len()].clone();
                Some((None, s))
            }
            _ => match find_clash(seed, c.block, other, c.search) {
                Some((a, b)) => Some((Some(a), b)),
                None => {
                    o.excluded = Some("no clash found");
                    return Ok(());
                }
            },
        };
        // Add the clusters to the sources, each with a cell that is already in use, or as an alias
        let add = |s: &str, alias: bool, mine: &mut serde_json::Value, at: u32| {
            if alias {
                let canon = cs[at as usize % cs.len()].0.clone();
                add_alias_line(&gen, mine, &format!("{} {}", canon, hex_of(s, false)), at);
            } else {
                let p = gen.join(mine["index"].as_str().unwrap());
                if mine["indexType"] == "json-grid-coord" {
                    let mut v = read_json(&p);
                    let n = v["map"].as_array().unwrap().len();
                    let e = v["map"][at as usize % n].clone();
                    let e = serde_json::json!({"hex": hex_of(s, true), "row": e["row"], "col": e["col"]});
                    v["map"].as_array_mut().unwrap().insert(at as usize % (n + 1), e);
                    write_json(&p, &v);
                } else {
                    // The cell after the last one: make room for it
                    let mut t = std::fs::read_to_string(&p).expect("read");
                    t += &format!("\n{}\n", hex_of(s, true));
                    std::fs::write(&p, t).expect("write");
                    let q = gen.join(mine["sprites"].as_str().unwrap());
                    let img = png::decode(&std::fs::read(&q).expect("read")).expect("png");
                    let h = img.h + mine["size"].as_u64().unwrap() as usize + mine["gutter"].as_u64().unwrap() as usize;
                    let dark: Vec<bool> = (0..img.w * h).map(|k| k / img.w < img.h && img.is_dark(k % img.w, k / img.w)).collect();
                    std::fs::write(&q, png::encode(img.w, h, &dark, png::Format::Gray8)).expect("write");
                }
            }
        };
        if let Some((a, b)) = &pair {
            if let Some(a) = a {
                if have.contains(a) || have.contains(b) {
                    o.excluded = Some("already there");
                    return Ok(());
                }
                add(a, c.alias.0, &mut mine, c.at);
            }
            add(b, c.alias.1, &mut mine, c.at / 7);
        }
        conf["glyphSets"][i] = mine;
        write_json(&conf_path, &conf);
        // What has to be found: equal hashes within a block
        let mut all = have;
        if let Some((a, b)) = pair {
            all.extend(a);
            all.push(b);
        }
        let mut seen = HashSet::new();
        let clash = all.iter().any(|s| !seen.insert((block_of(s.chars().next().unwrap() as u32), murmur3(s, seed))));
        let what = match c.clash {
            Clash::None => "nothing clashes",
            Clash::Hash => "two clusters with the same hash",
            Clash::Same => "a cluster listed twice",
            Clash::OtherBlock => "the same hash in two blocks",
        };
        o.label(what);
        o.label_if(c.alias.0 && c.alias.1, "both aliases");
        o.nontrivial = !matches!(c.clash, Clash::None);
        let (code, out) = codegen(&gen, &["--write"]);
        if code != Some(0) {
            return if clash { Ok(()) } else { Err(format!("{}: the code generator failed (exit {:?}): {}", what, code, out.chars().take(600).collect::<String>())) };
        }
        copy_dir(&cx.repo.join("src"), &d.join("src"));
        for n in NAMES {
            let f = format!("{}.rs", n.to_lowercase());
            std::fs::copy(d.join("out").join(&f), d.join("src/fonts").join(&f)).map_err(|_| format!("{} was not written", f))?;
        }
        let (code, out) = run(Command::new(&rustc)
            .args(["--test", "--crate-name", "blitstr", "--edition", &edition(&cx.repo), "--cap-lints", "allow", "-Cdebuginfo=0", "-Copt-level=0"])
            .arg(d.join("src/lib.rs"))
            .arg("-o")
            .arg(d.join("tests"))
            .current_dir(d));
        if code != Some(0) {
            return Err(format!("{}: the library does not compile with the generated fonts: {}", what, out.chars().take(600).collect::<String>()));
        }
        // The tests that come with the generated files, and no others
        for (k, n) in NAMES.iter().enumerate() {
            let (code, out) = run(Command::new(d.join("tests")).args(["--test-threads", "1", &format!("fonts::{}::", n.to_lowercase())]).current_dir(d));
            let bad = clash && k == i;
            if code == Some(0) && bad {
                return Err(format!("{} in {}, but the generator and the tests of the generated font file pass", what, n));
            }
            if code != Some(0) && !bad {
                return Err(format!("{} in {}: the tests of the generated file of {} fail: {}", what, NAMES[i], n, out.chars().take(600).collect::<String>()));
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C25

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LegalCase {
    pub src: SourceCase,
    /// What the legal files say, and which of them each font uses (none, if there is no such)
    pub legal: Vec<Vec<String>>,
    pub which: Vec<usize>,
    /// White space before, between and after the lines
    pub space: (u8, u8),
    pub compile: bool,
    /// How the legal files are called
    #[serde(default)]
    pub naming: u8,
}

impl LegalCase {
    fn path(&self, k: usize) -> String {
        match self.naming % 5 {
            0 => format!("legal{}.txt", k),
            1 => format!("legal.{}.txt", k),
            2 => format!("legal {}/legal.txt", k),
            3 => format!("legal.d/{}", k),
            _ => ["x/y.txt", "y.txt", "x/../z.txt", "./z", "Y.TXT", "x/y"][k % 6].to_string(),
        }
    }
}

/// The legal file as it is written, and what has to be in the font file, line by line
fn legal_text(c: &LegalCase, k: usize) -> (String, Vec<String>) {
    let eol = if c.space.0 % 4 == 3 { "\r\n" } else { "\n" };
    let lines: Vec<String> = c.legal[k].iter().enumerate().map(|(i, l)| if i == 3 { String::new() } else { format!("// {}: {}", k, l) }).collect();
    let t = format!("{}{}{}", ["", "\n", " \n\n", ""][c.space.0 as usize % 4], lines.join(eol), ["", "\n", "\n\n  \n", "\t\n"][c.space.1 as usize % 4]);
    (t.clone(), notice_lines(&t))
}

/// The lines of a notice, exactly
fn notice_lines(t: &str) -> Vec<String> {
    t.trim().lines().map(|l| l.to_string()).collect()
}

fn has_block(text: &str, want: &[String]) -> bool {
    let have: Vec<&str> = text.lines().collect();
    want.is_empty() || have.windows(want.len()).any(|w| w.iter().zip(want).all(|(a, b)| a == b))
}

pub fn c25(cx: &Ctx) {
    cx.rule("legal notices with all kinds of characters, shared by fonts or not: every font file that the real generator writes has the lines of its own legal file, in order and together, and no line of another; the committed font files those of the committed legal files; some are compiled; non-trivial: at least two different notices and one with quotes, angle brackets, braces, backslashes, percent signs or other than ASCII");
    let line = || {
        prop_oneof![
            2 => "[ -~]{0,60}",
            1 => "\\PC{0,40}",
            2 => proptest::collection::vec(prop_oneof![Just("{{.Font.Name}}"), Just("{{"), Just("}}"), Just("<b>"), Just("&amp;"), Just("\"x\""), Just("'"), Just("*/"), Just("/*"), Just("%s"), Just("%d%%"), Just("\\n"), Just("\\"), Just("©"), Just("$1"), Just("`"), Just("#"), Just("//!"), Just("http://x.y/?a=b&c=d"), Just("a\tb"), Just("\t"), Just("  "), Just("\u{a0}x"), Just("\u{3000}"), Just("\u{feff}x")], 1..5).prop_map(|v| v.join(" ")),
        ]
    };
    let strat = move || {
        (source_case(1..4, 3, 1, 0, false), proptest::collection::vec(prop_oneof![15 => proptest::collection::vec(line(), 1..7), 1 => (line(), 100usize..300).prop_map(|(l, n)| vec![l; n]), 1 => (line(), 70_000usize..80_000).prop_map(|(l, n)| vec![l.clone(), "x".repeat(n), l])], 1..6), proptest::collection::vec(0usize..7, 5..6), any::<(u8, u8)>(), prop_oneof![7 => Just(false), 1 => Just(true)], any::<u8>()).prop_map(|(src, legal, which, space, compile, naming)| LegalCase { src, legal, which, space, compile, naming })
    };
    cx.prop_shrink("notices", cx.n(600, 10_000), cx.threads, 200, 30_000, strat, |c: &LegalCase, o| {
        let dir = Scratch::new(cx);
        let d = &dir.0;
        write_sources(d, &c.src, 0);
        let gen = d.join("gen");
        let mut conf = read_json(&gen.join("config.json"));
        let mut texts = vec![];
        for k in 0..c.legal.len() {
            let (t, want) = legal_text(c, k);
            let p = gen.join(c.path(k));
            let _ = std::fs::create_dir(gen.join("x"));
            let _ = std::fs::create_dir(p.parent().expect("parent"));
            std::fs::write(p, t).expect("write");
            texts.push(want);
        }
        let mut used = HashSet::new();
        for i in 0..5 {
            let k = c.which[i];
            conf["glyphSets"][i]["legal"] = serde_json::json!(if k < texts.len() { c.path(k) } else { String::new() });
            if k < texts.len() {
                used.insert(k);
            }
        }
        write_json(&gen.join("config.json"), &conf);
        let (code, out) = codegen(&gen, &["--write"]);
        if code != Some(0) {
            return Err(format!("the code generator failed (exit {:?}) on valid sources: {}", code, out.chars().take(600).collect::<String>()));
        }
        for (i, n) in NAMES.iter().enumerate() {
            let t = std::fs::read_to_string(d.join(out_path(n))).map_err(|e| format!("{} was not written: {}", n, e))?;
            for (k, want) in texts.iter().enumerate() {
                if k == c.which[i] {
                    if !has_block(&t, want) {
                        return Err(format!("the font file of {} does not have its legal notice {:?}", n, want));
                    }
                } else if let Some(l) = want.iter().find(|l| !l.is_empty() && t.lines().any(|m| m == l.as_str())) {
                    return Err(format!("the font file of {} has {:?} of another font's legal notice", n, l));
                }
            }
        }
        if c.compile {
            copy_dir(&cx.repo.join("src"), &d.join("src"));
            for n in NAMES {
                std::fs::copy(d.join(out_path(n)), d.join("src/fonts").join(format!("{}.rs", n.to_lowercase()))).expect("copy");
            }
            build_driver(cx, d, "0")?;
            o.label("compiled");
        }
        o.label_if(used.len() < 5, "shared or none");
        let special = |s: &String| s.chars().skip(2).any(|c| "\"'<>&{}\\%".contains(c) || !c.is_ascii());
        o.nontrivial = used.len() >= 2 && used.iter().any(|k| texts[*k].iter().any(special));
        Ok(())
    });
    cx.each("committed fonts", (0..5usize).collect(), |i: &usize, o| {
        let cg = cx.repo.join("codegen");
        let conf = read_json(&cg.join("config.json"));
        let g = &conf["glyphSets"][*i];
        let legal = match g["legal"].as_str() {
            Some(l) if !l.is_empty() => l,
            _ => return Ok(()),
        };
        let t = std::fs::read_to_string(cg.join(legal)).expect("legal file");
        let want = notice_lines(&t);
        let out = g["rustout"].as_str().or(g["rustOut"].as_str()).expect("rustout");
        let have = std::fs::read_to_string(cg.join(out)).expect("font file");
        if !has_block(&have, &want) {
            return Err(format!("{} does not have the legal notice of {}", out, legal));
        }
        o.nontrivial = true;
        Ok(())
    });
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TogetherCase {
    pub src: SourceCase,
    /// Which fonts, in which order, in the other configuration
    pub pick: Vec<usize>,
    /// A font whose sources are replaced by those of another case in the other run
    pub other: Option<(usize, Box<FontGen>)>,
    pub rename: bool,
    /// Fonts that have source files in common with another font
    #[serde(default)]
    pub share: Vec<Share>,
    /// How many more files are made of the same fonts
    #[serde(default)]
    pub again: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Share {
    pub to: usize,
    pub from: usize,
    /// 1: the index, 2: the aliases, 4: the sprites
    pub files: u8,
    pub cols: Option<usize>,
    pub seed: Option<u32>,
    pub cjk: Option<bool>,
    /// So many pixels of the cells are gutter
    pub smaller: Option<usize>,
    pub json: Option<bool>,
}

/// Let fonts use files of others; only where they say the same for both
fn share_files(c: &TogetherCase, gen: &Path, conf: &mut serde_json::Value) -> usize {
    let mut n = 0;
    let mut fonts = c.src.fonts.clone();
    // Files that are in use for another font stay as they are
    let mut used = HashSet::new();
    for s in &c.share {
        let (to, from) = (s.to % 5, s.from % 5);
        if to == from || used.contains(&to) || (to < 2) != (from < 2) {
            continue;
        }
        let f = fonts[from].clone();
        let mut t = f.clone();
        t.m3_seed = s.seed.unwrap_or(t.m3_seed);
        t.cjk = s.cjk.unwrap_or(t.cjk);
        let sprites = s.files & 4 != 0;
        if !sprites {
            t.cols = s.cols.unwrap_or(t.cols);
        }
        if let Some(k) = s.smaller {
            let k = k.min(t.size.clamp(1, 255) - 1).min(5 - t.gutter.min(5));
            // Cells of more than 32 px have their ink where their size says
            if t.size <= 32 {
                t.size -= k;
                t.gutter += k;
            }
        }
        // Only a json index leaves gaps in the sheet
        if !sprites || f.noise % 2 == 0 {
            t.json = s.json.unwrap_or(t.json);
        }
        let list = |f: &FontGen, i: usize| settle(f, NAMES[i]).iter().map(|e| (e.cluster.clone(), e.aliases.clone())).collect::<Vec<_>>();
        if list(&f, from) != list(&t, to) {
            continue;
        }
        let mut g = write_font(gen, &t, NAMES[to], t.order);
        let h = &conf["glyphSets"][from];
        if s.files & 1 != 0 && f.json == t.json && !(f.json && t.cols != f.cols) {
            g["index"] = h["index"].clone();
        }
        if s.files & 2 != 0 && g["aliases"] != "" && h["aliases"] != "" {
            g["aliases"] = h["aliases"].clone();
        }
        if sprites {
            g["sprites"] = h["sprites"].clone();
        }
        conf["glyphSets"][to] = g;
        used.insert(from);
        fonts[to] = t;
        n += 1;
    }
    n
}

pub fn c26(cx: &Ctx) {
    cx.rule("five fonts generated by one run, then any selection of them in any order (source files of one in use for others, other output paths, other sources for one of the others), sometimes followed by the same fonts again, up to 39 files: the file of every font of the selection has the same bytes as before; non-trivial: the selection is not the same list again");
    let strat = || {
        let pick = proptest::collection::vec(0usize..5, 1..6).prop_map(|v| {
            let mut seen = HashSet::new();
            v.into_iter().filter(|i| seen.insert(*i)).collect::<Vec<_>>()
        });
        let other = prop_oneof![2 => Just(None), 1 => (0usize..5, font_gen(1..12, 4, 2)).prop_map(|(i, f)| Some((i, Box::new(f))))];
        let share = (0usize..5, 0usize..5, 1u8..8, proptest::option::of(1usize..9), proptest::option::of(any::<u32>()), proptest::option::of(any::<bool>()), proptest::option::of(1usize..4), proptest::option::weighted(0.3, any::<bool>()));
        let share = proptest::collection::vec(share.prop_map(|(to, from, files, cols, seed, cjk, smaller, json)| Share { to, from, files, cols, seed, cjk, smaller, json }), 0..5);
        (source_case(1..15, 4, 2, 0, false), pick, other, any::<bool>(), share, prop_oneof![9 => Just(0usize), 1 => 1usize..40]).prop_map(|(src, pick, other, rename, share, again)| TogetherCase { src, pick, other, rename, share, again })
    };
    cx.prop_shrink("selections", cx.n(1_200, 20_000), cx.threads, 200, 30_000, strat, |c: &TogetherCase, o| {
        let dir = Scratch::new(cx);
        let d = &dir.0;
        write_sources(d, &c.src, 0);
        let gen = d.join("gen");
        let mut all = read_json(&gen.join("config.json"));
        let shared = share_files(c, &gen, &mut all);
        write_json(&gen.join("config.json"), &all);
        o.label_if(shared > 0, "files in common");
        let fail = |code, out: String| format!("the code generator failed (exit {:?}) on valid sources: {}", code, out.chars().take(600).collect::<String>());
        let (code, out) = codegen(&gen, &["--write"]);
        if code != Some(0) {
            return Err(fail(code, out));
        }
        let mut first: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
        for (i, n) in NAMES.iter().enumerate() {
            first.insert(i, std::fs::read(d.join(out_path(n))).map_err(|e| format!("{} was not written: {}", n, e))?);
            std::fs::remove_file(d.join(out_path(n))).expect("remove");
        }
        let mut sets = vec![];
        for i in &c.pick {
            let mut g = all["glyphSets"][*i].clone();
            match &c.other {
                Some((k, f)) if k == i && shared == 0 => {
                    g = write_font(&gen, f, NAMES[*i], f.order);
                    o.label("one font changed");
                }
                _ => {}
            }
            if c.rename {
                g["rustout"] = serde_json::json!(format!("../out/other_{}.rs", i));
                o.label("other paths");
            }
            sets.push(g);
        }
        let chosen = sets.len();
        for k in 0..c.again {
            let mut g = sets[k % chosen].clone();
            g["rustout"] = serde_json::json!(format!("../out/again_{}.rs", k));
            sets.push(g);
        }
        o.label_if(c.again > 0, "fonts again in the same run");
        write_json(&gen.join("config.json"), &serde_json::json!({"comment": ["x"], "glyphSets": sets}));
        let (code, out) = codegen(&gen, &["--write"]);
        if code != Some(0) {
            return Err(fail(code, out));
        }
        for i in &c.pick {
            if shared == 0 && matches!(&c.other, Some((k, _)) if k == i) {
                continue;
            }
            let p = if c.rename { PathBuf::from(format!("out/other_{}.rs", i)) } else { out_path(NAMES[*i]) };
            let b = std::fs::read(d.join(&p)).map_err(|e| format!("{} was not written: {}", NAMES[*i], e))?;
            if b != first[i] {
                let (x, y) = (String::from_utf8_lossy(&first[i]).into_owned(), String::from_utf8_lossy(&b).into_owned());
                let l = x.lines().zip(y.lines()).position(|(a, b)| a != b).unwrap_or(0);
                return Err(format!("the font file of {} is another one when generated with {:?}: line {} was {:?} and is {:?}", NAMES[*i], c.pick, l + 1, x.lines().nth(l), y.lines().nth(l)));
            }
        }
        for k in 0..c.again {
            let (path, i) = (|n: String| d.join("out").join(n), c.pick[k % chosen]);
            let one = if c.rename { path(format!("other_{}.rs", i)) } else { d.join(out_path(NAMES[i])) };
            if std::fs::read(path(format!("again_{}.rs", k))).ok() != std::fs::read(one).ok() {
                return Err(format!("{} generated again in the same run (as number {}) is another file", NAMES[i], chosen + k + 1));
            }
        }
        o.nontrivial = c.pick != [0, 1, 2, 3, 4] || c.other.is_some() || c.again > 0;
        Ok(())
    });
}

// ---------------------------------------------------------------- C27

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AnnounceCase {
    pub src: SourceCase,
    pub paths: Vec<String>,
    /// How each path is spelled
    #[serde(default)]
    pub styles: Vec<u8>,
    pub sets: usize,
    /// Set i uses the sources of set twins[i]
    #[serde(default)]
    pub twins: Vec<usize>,
    pub args: Vec<String>,
}

pub fn c27(cx: &Ctx) {
    cx.rule("configurations of 1 to 5, sometimes up to 70 fonts with all kinds of output paths: what the generator prints without --write names every output path on a line of its own and no other, and the --write switch; with --write exactly these files are written; non-trivial: at least 2 fonts, or a path with other than lower case letters");
    let part = || prop_oneof![3 => "[a-z]{1,8}", 1 => "[A-Za-z0-9_.+ -]{1,12}", 1 => "[^/\\pC]{1,6}"].prop_filter("no name", |s: &String| s.trim() == s && s != "." && s != ".." && !s.is_empty() && s.len() < 60);
    let strat = move || {
        let path = proptest::collection::vec(part(), 1..4).prop_map(|v| v.join("/"));
        (source_case(1..4, 3, 1, 0, false), proptest::collection::vec(path, 5..6), prop_oneof![15 => 1usize..6, 1 => 6usize..70], prop_oneof![3 => Just(vec![]), 1 => proptest::collection::vec(prop_oneof![Just("--help".to_string()), Just("-h".to_string()), Just("x".to_string()), Just("--write".to_string())], 2..4), 1 => prop_oneof![Just("--WRITE"), Just("-write"), Just("--write "), Just("")].prop_map(|s| vec![s.to_string()])], proptest::collection::vec(prop_oneof![3 => Just(0u8), 2 => 1u8..8], 5), prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(0usize..5, 5)]).prop_map(|(src, paths, sets, args, styles, twins)| AnnounceCase { src, paths, styles, sets, twins, args })
    };
    cx.prop_shrink("outputs", cx.n(800, 12_000), cx.threads, 200, 30_000, strat, |c: &AnnounceCase, o| {
        let dir = Scratch::new(cx);
        let d = &dir.0;
        write_sources(d, &c.src, 0);
        let gen = d.join("gen");
        let mut conf = read_json(&gen.join("config.json"));
        let n = c.sets.clamp(1, 100);
        if c.twins.len() == 5 {
            // The same font may go to several files
            let all = conf["glyphSets"].clone();
            for i in 0..5 {
                conf["glyphSets"][i] = all[c.twins[i] % 5].clone();
            }
        }
        let sets = conf["glyphSets"].as_array_mut().unwrap();
        sets.truncate(n);
        while sets.len() < n {
            sets.push(sets[sets.len() - 5].clone());
        }
        o.label_if(n > 5, "more than 5 fonts");
        let mut want = vec![];
        let mut expect = HashSet::new();
        for i in 0..n {
            // A number for each, so that no path is the directory of another
            let rel = format!("out/{}-{}.rs", c.paths[i % 5], i);
            std::fs::create_dir_all(d.join(&rel).parent().unwrap()).expect("mkdir");
            // The same file can be named in many ways; the one that counts is in the configuration
            let p = match c.styles.get(i % 5).copied().unwrap_or(0) {
                1 => format!(".././{}", rel),
                2 => format!("./../{}", rel),
                3 => format!("..//{}", rel),
                4 => format!("../out/../{}", rel),
                5 => format!("../gen/../{}", rel),
                6 => d.join(&rel).to_str().unwrap().to_string(),
                7 => format!("..///out/./{}", &rel[4..]),
                _ => format!("../{}", rel),
            };
            expect.insert(PathBuf::from(rel));
            conf["glyphSets"][i]["rustout"] = serde_json::json!(p);
            want.push(p);
        }
        write_json(&gen.join("config.json"), &conf);
        let a: Vec<&str> = c.args.iter().map(|s| s.as_str()).collect();
        let before = tree(d);
        let (_, out) = codegen(&gen, &a);
        let named: Vec<String> = out.lines().map(|l| l.trim()).filter(|l| l.contains("out/") && l.ends_with(".rs")).map(|l| l.to_string()).collect();
        for p in &want {
            if !named.contains(p) {
                return Err(format!("the usage message does not name the output {:?}: {:?}", p, named));
            }
        }
        if named.len() != want.len() {
            return Err(format!("the usage message names {:?}, the outputs are {:?}", named, want));
        }
        if !out.contains("--write") {
            return Err("the usage message does not name the switch --write".into());
        }
        let mid = tree(d);
        if let Some(p) = tree_diff(&before, &mid, &HashSet::new()) {
            return Err(format!("{:?} changed when called with {:?}", p, c.args));
        }
        let (code, out) = codegen(&gen, &["--write"]);
        if code != Some(0) {
            return Err(format!("the code generator failed (exit {:?}) on valid sources: {}", code, out.chars().take(600).collect::<String>()));
        }
        let after = tree(d);
        let new: HashSet<PathBuf> = after.keys().filter(|k| !mid.contains_key(*k)).cloned().collect();
        if new != expect {
            return Err(format!("announced {:?} but wrote {:?}", expect, new));
        }
        if let Some(p) = tree_diff(&mid, &after, &expect) {
            return Err(format!("{:?} changed and was not announced", p));
        }
        // Everything that is written is said to be written
        for p in &want {
            if !out.contains(p.as_str()) {
                return Err(format!("--write does not say that it writes {:?}", p));
            }
        }
        o.label(if c.twins.len() == 5 { "font listed more than once (possibly)" } else { "distinct fonts" });
        o.nontrivial = n >= 2 || c.styles.first().map_or(false, |s| *s > 0) || c.paths[0].chars().any(|c| !c.is_ascii_lowercase());
        Ok(())
    });
}

// ---------------------------------------------------------------- C29

/// The text of a quoted label and what follows it
fn unquote(s: &str) -> Option<(String, &str)> {
    let mut it = s.strip_prefix('"')?.char_indices();
    let mut out = String::new();
    let rest = &s[1..];
    loop {
        let (i, c) = it.next()?;
        match c {
            '"' => return Some((out, rest[i + 1..].trim())),
            '\\' => {
                let (_, e) = it.next()?;
                let digits = match e {
                    'x' => 2,
                    'u' => 4,
                    'U' => 8,
                    _ => 0,
                };
                if digits > 0 {
                    let mut n = 0;
                    for _ in 0..digits {
                        n = n * 16 + it.next()?.1.to_digit(16)?;
                    }
                    out.push(char::from_u32(n)?);
                } else {
                    out.push(match e {
                        'a' => '\x07',
                        'b' => '\x08',
                        'f' => '\x0c',
                        'n' => '\n',
                        'r' => '\r',
                        't' => '\t',
                        'v' => '\x0b',
                        '\\' | '"' | '\'' => e,
                        _ => return None,
                    });
                }
            }
            c => out.push(c),
        }
    }
}

/// The cluster that a label stands for; more than one code point have to be spelled out
fn labelled(label: &str) -> Result<String, String> {
    let (s, rest) = unquote(label.trim()).ok_or_else(|| format!("label {:?} is no quoted text", label))?;
    let hex: Vec<char> = s.chars().collect();
    let hex = hex.iter().map(|c| format!("{:X}", *c as u32)).collect::<Vec<_>>().join("-");
    if s.chars().count() > 1 && !rest.eq_ignore_ascii_case(&hex) {
        return Err(format!("label {:?} does not spell out the code points {}", label, hex));
    }
    Ok(s)
}

/// What is in a table: numbers and the comments between them
pub enum Item {
    Number(Result<u32, String>),
    Note(String),
}

pub struct Table {
    pub name: String,
    /// The length as declared, if that is a number
    pub len: Option<usize>,
    pub items: Vec<Item>,
}

fn number(s: &str) -> Result<u32, String> {
    let t = s.trim().replace('_', "");
    let t = ["u8", "u32", "u64", "usize"].iter().find_map(|x| t.strip_suffix(x)).unwrap_or(&t);
    let v = if let Some(h) = t.strip_prefix("0x") { u32::from_str_radix(h, 16) } else { t.parse() };
    v.map_err(|_| format!("{:?} is no number", s))
}

/// The name that a line declares a constant for, and what follows it
fn declared(line: &str) -> Option<(&str, &str)> {
    let mut t = line.trim_start();
    if let Some(r) = t.strip_prefix("pub") {
        t = r.trim_start();
        if let Some(r) = t.strip_prefix('(') {
            t = r.split_once(')')?.1.trim_start();
        }
    }
    let r = t.strip_prefix("const ").or(t.strip_prefix("static "))?;
    let (name, rest) = r.split_once(':')?;
    Some((name.trim(), rest)).filter(|(n, _)| n.chars().all(|c| c.is_alphanumeric() || c == '_'))
}

/// All tables of numbers, however they are laid out
pub fn tables(text: &str) -> Vec<Table> {
    let mut out = vec![];
    let mut rest = text;
    while !rest.is_empty() {
        let line = rest.split('\n').next().unwrap_or("");
        let after = rest.get(line.len() + 1..).unwrap_or("");
        let head = match declared(line) {
            Some((name, _)) => {
                let of = rest.find(':').map_or("", |i| &rest[i + 1..]);
                of.split_once('=').and_then(|(ty, v)| Some((name, ty, v.trim_start().trim_start_matches('&').strip_prefix('[')?)))
            }
            None => None,
        };
        let (name, ty, body) = match head {
            Some(h) => h,
            None => {
                rest = after;
                continue;
            }
        };
        let len = ty.split_once(';').and_then(|x| x.1.split(']').next()).and_then(|x| number(x).ok()).map(|x| x as usize);
        let mut table = Table { name: name.to_string(), len, items: vec![] };
        let mut b = body;
        loop {
            b = b.trim_start_matches(|c: char| c.is_whitespace() || c == ',');
            if b.is_empty() || b.starts_with(']') {
                break;
            } else if let Some(r) = b.strip_prefix("//") {
                let note = r.split('\n').next().unwrap_or("");
                table.items.push(Item::Note(note.trim().to_string()));
                b = &r[note.len()..];
            } else if let Some((note, r)) = b.strip_prefix("/*").and_then(|r| r.split_once("*/")) {
                table.items.push(Item::Note(note.trim().to_string()));
                b = r;
            } else {
                let n = b.find(|c: char| c.is_whitespace() || ",]/".contains(c)).unwrap_or(b.len()).max(1);
                table.items.push(Item::Number(number(&b[..n])));
                b = &b[n..];
            }
        }
        out.push(table);
        rest = b;
    }
    out
}

pub fn constant(text: &str, name: &str) -> Result<u64, String> {
    let (_, rest) = text.lines().filter_map(declared).find(|d| d.0 == name).ok_or_else(|| format!("no {}", name))?;
    let v = rest.split('=').nth(1).unwrap_or("").split(';').next().unwrap_or("");
    number(v).map(|n| n as u64)
}

fn check_font_file(text: &str, f: &Font) -> Result<usize, String> {
    let (size, seed) = (constant(text, "MAX_HEIGHT")?, constant(text, "M3_SEED")?);
    if size != f.max_height as u64 || seed != f.seed as u64 {
        return Err(format!("MAX_HEIGHT {} and M3_SEED {} are not the configured {} and {}", size, seed, f.max_height, f.seed));
    }
    let t = tables(text);
    let body = |n: &str| t.iter().find(|x| x.name == n);
    // Records: offset -> (cluster, words)
    let mut records: BTreeMap<usize, (String, Vec<u32>)> = BTreeMap::new();
    let mut at = 0usize;
    let mut last = None;
    let data = body("DATA").ok_or("no DATA")?;
    for item in &data.items {
        if let Item::Note(c) = item {
            let (n, rest) = c.strip_prefix('[').and_then(|r| r.split_once("]:")).ok_or_else(|| format!("label {:?}", c))?;
            let (hex, label) = rest.trim().split_once(' ').ok_or_else(|| format!("label {:?}", c))?;
            let s = labelled(label)?;
            if number(n)? as usize != at {
                return Err(format!("the label {:?} is at DATA[{}]", c, at));
            }
            if hex_to_string(hex)? != s {
                return Err(format!("the label {:?} has two different clusters", c));
            }
            records.insert(at, (s, vec![]));
            last = Some(at);
        } else if let Item::Number(w) = item {
            let r = last.ok_or("words without a label in DATA")?;
            records.get_mut(&r).expect("record").1.push(w.clone()?);
            at += 1;
        }
    }
    if data.len.map_or(false, |n| n != at) {
        return Err(format!("DATA is declared with {:?} words and has {}", data.len, at));
    }
    let mut of: BTreeMap<&str, usize> = BTreeMap::new();
    for (at, (s, words)) in &records {
        let g = &f.glyphs[*f.map.get(s).ok_or_else(|| format!("DATA has a record for {:?}, which is not in the index", s))?];
        let head = (g.w << 16 | g.h << 8 | g.yoff) as u32;
        let blank = g.w * g.h == 0;
        if !blank && words[0] != head {
            return Err(format!("the record of {:?} has the header {:08x}, its glyph {:08x}", s, words[0], head));
        }
        if g.h + g.yoff > f.max_height {
            return Err(format!("the record of {:?} is {} px high and {} down in a font of {} px", s, g.h, g.yoff, f.max_height));
        }
        if !blank && words.len() != 1 + (g.w * g.h + 31) / 32 {
            return Err(format!("the record of {:?} has {} words for {} x {} pixels", s, words.len(), g.w, g.h));
        }
        let ink: u32 = words[1..].iter().map(|w| w.count_ones()).sum();
        let want: u32 = g.rows.iter().map(|r| r.count_ones()).sum();
        if ink != want {
            return Err(format!("the record of {:?} has {} pixels of ink, its glyph {}", s, ink, want));
        }
        if of.insert(s.as_str(), *at).is_some() {
            return Err(format!("two records for {:?}", s));
        }
    }
    let canon: HashSet<&String> = f.aliases.iter().map(|a| &a.1).collect();
    if let Some((s, _)) = f.entries.iter().find(|e| !canon.contains(&e.0) && !of.contains_key(e.0.as_str())) {
        return Err(format!("there is no record for {:?}", s));
    }
    let target: BTreeMap<&str, &str> = f.aliases.iter().map(|(c, a)| (a.as_str(), c.as_str())).collect();
    let mut seen = HashSet::new();
    for table in &t {
        let block = match table.name.strip_prefix("HASH_") {
            Some(b) => b,
            None => continue,
        };
        // Pairs of a number and its label
        let pairs = |t: &Table| -> Result<Vec<(u32, String)>, String> {
            let mut v = vec![];
            for i in t.items.chunks(2) {
                match i {
                    [Item::Number(n), Item::Note(l)] => v.push((n.clone()?, labelled(l)?)),
                    _ => return Err(format!("an entry of {} has no label", t.name)),
                }
            }
            Ok(v)
        };
        let (len, lines) = (table.len, pairs(table)?);
        let offsets = body(&format!("OFFSET_{}", block)).ok_or_else(|| format!("no OFFSET_{}", block))?;
        let offset_len = offsets.len;
        let offsets = pairs(offsets)?;
        if len.map_or(false, |n| n != lines.len()) || offset_len.map_or(false, |n| n != offsets.len()) || lines.len() != offsets.len() {
            return Err(format!("HASH_{} is declared with {:?} entries, has {}, and there are {} offsets", block, len, lines.len(), offsets.len()));
        }
        for ((hash, s), (offset, s2)) in lines.into_iter().zip(offsets) {
            if s != s2 {
                return Err(format!("HASH_{} and OFFSET_{} label the same entry {:?} and {:?}", block, block, s, s2));
            }
            if !f.map.contains_key(&s) {
                return Err(format!("HASH_{} has a label for {:?}, which is neither in the index nor an alias", block, s));
            }
            if hash != murmur3(&s, f.seed) {
                return Err(format!("HASH_{}: {:08x} is not the hash of {:?}", block, hash, s));
            }
            let mut c = s.as_str();
            // An alias may be one of another alias
            for _ in 0..9 {
                c = target.get(c).copied().unwrap_or(c);
            }
            if of.get(c) != Some(&(offset as usize)) {
                return Err(format!("OFFSET_{}: {} is not the record of {:?} (that is {:?})", block, offset, s, of.get(c)));
            }
            if !seen.insert(s.clone()) {
                return Err(format!("two index entries are labelled {:?}", s));
            }
        }
    }
    if let Some((s, _)) = f.entries.iter().find(|e| !seen.contains(&e.0)) {
        return Err(format!("no entry of an index table is labelled {:?}", s));
    }
    Ok(seen.len())
}

pub fn c29(cx: &Ctx) {
    cx.rule("font files that the real generator writes from generated sources, and the committed ones, read as they describe themselves: every label against the configured sources; non-trivial: at least one cluster of several code points and one alias");
    cx.prop_shrink("generated", cx.n(1_500, 25_000), cx.threads, 200, 30_000, || source_case(1..20, 4, 2, 0, false), |c: &SourceCase, o| {
        let dir = Scratch::new(cx);
        let d = &dir.0;
        write_sources(d, c, 0);
        let gen = d.join("gen");
        let (code, out) = codegen(&gen, &["--write"]);
        if code != Some(0) {
            return Err(format!("the code generator failed (exit {:?}) on valid sources: {}", code, out.chars().take(600).collect::<String>()));
        }
        for g in read_conf(&gen).expect("configuration") {
            let f = load_font(&gen, &g).expect("sources");
            let text = std::fs::read_to_string(gen.join(&g.rust_out)).map_err(|e| format!("{} was not written: {}", g.name, e))?;
            check_font_file(&text, &f).map_err(|e| format!("in the file of {}: {}", g.name, e))?;
            o.label_if(f.entries.is_empty(), "empty font");
            o.nontrivial |= !f.aliases.is_empty() && f.max_len > 1;
        }
        Ok(())
    });
    // What the generator makes of the committed sources (tables much larger than the generated ones)
    cx.each("committed sources", vec![0], |_: &usize, o| {
        let dir = Scratch::new(cx);
        let d = &dir.0;
        copy_dir(&cx.repo.join("codegen"), &d.join("codegen"));
        copy_dir(&cx.repo.join("src"), &d.join("src"));
        let cg = d.join("codegen");
        let (code, out) = codegen(&cg, &["--write"]);
        if code != Some(0) {
            return Err(format!("the code generator failed (exit {:?}) on the committed sources: {}", code, tail(&out)));
        }
        for g in read_conf(&cg).map_err(|e| format!("configuration: {}", e))? {
            let f = load_font(&cg, &g)?;
            let text = std::fs::read_to_string(cg.join(&g.rust_out)).map_err(|e| format!("{}: {}", g.rust_out, e))?;
            let n = check_font_file(&text, &f).map_err(|e| format!("in the file of {}: {}", g.name, e))?;
            o.nontrivial |= n > 0;
        }
        Ok(())
    });
    cx.each("committed fonts", (0..5usize).collect(), |i: &usize, o| {
        let cg = cx.repo.join("codegen");
        let confs = read_conf(&cg).map_err(|e| format!("configuration: {}", e))?;
        let g = match confs.get(*i) {
            Some(g) => g,
            None => return Ok(()),
        };
        let f = load_font(&cg, g)?;
        let text = std::fs::read_to_string(cg.join(&g.rust_out)).map_err(|e| format!("{}: {}", g.rust_out, e))?;
        let n = check_font_file(&text, &f).map_err(|e| format!("in {}: {}", g.rust_out, e))?;
        o.nontrivial = n > 0;
        Ok(())
    });
}
