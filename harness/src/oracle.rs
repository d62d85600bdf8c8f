//! The reference model: fonts decoded from the source artwork (sprite sheets,
//! indices, aliases) and a pixel-by-pixel renderer over plain bits. Nothing in
//! here uses the library under test.

use crate::png;
use std::collections::HashMap;
use std::path::Path;

pub const W: usize = 336;
pub const H: usize = 536;
pub const WPL: usize = 11;
pub const FB_WORDS: usize = WPL * H;

/// Unicode blocks that the font indices are organised by (bounds as in Unicode's Blocks.txt)
pub const BLOCKS: &[(u32, u32)] = &[
    (0x0000, 0x007F),
    (0x0080, 0x00FF),
    (0x0100, 0x017F),
    (0x2000, 0x206F),
    (0x20A0, 0x20CF),
    (0x2100, 0x214F),
    (0x2190, 0x21FF),
    (0x2300, 0x23FF),
    (0x2460, 0x24FF),
    (0x25A0, 0x25FF),
    (0x2600, 0x26FF),
    (0x2700, 0x27BF),
    (0x2900, 0x297F),
    (0x2B00, 0x2BFF),
    (0x3000, 0x303F),
    (0x3200, 0x32FF),
    (0x3400, 0x4DBF),
    (0x4E00, 0x9FFF),
    (0xE000, 0xF8FF),
    (0xFF00, 0xFFEF),
    (0xFFF0, 0xFFFF),
    (0x1F000, 0x1F02F),
    (0x1F0A0, 0x1F0FF),
    (0x1F100, 0x1F1FF),
    (0x1F200, 0x1F2FF),
    (0x1F300, 0x1F5FF),
    (0x1F600, 0x1F64F),
    (0x1F680, 0x1F6FF),
    (0x1F780, 0x1F7FF),
    (0x1F900, 0x1F9FF),
    (0x1FA70, 0x1FAFF),
    (0x20000, 0x2A6DF),
    (0x2A700, 0x2B73F),
    (0x2B740, 0x2B81F),
    (0x2B820, 0x2CEAF),
    (0x2CEB0, 0x2EBEF),
    (0x2F800, 0x2FA1F),
    (0x30000, 0x3134F),
];

pub fn block_of(c: u32) -> Option<usize> {
    BLOCKS.iter().position(|(l, h)| *l <= c && c <= *h)
}

/// Murmur3 over code points, finalised with the UTF-8 length (the hash of the font indices)
pub fn murmur3(s: &str, seed: u32) -> u32 {
    let mut h = seed;
    for c in s.chars() {
        let k = (c as u32).wrapping_mul(0xcc9e_2d51).rotate_left(15).wrapping_mul(0x1b87_3593);
        h = (h ^ k).rotate_left(13).wrapping_mul(5).wrapping_add(0xe654_6b64);
    }
    h ^= s.len() as u32;
    h = (h ^ (h >> 16)).wrapping_mul(0x85eb_ca6b);
    h = (h ^ (h >> 13)).wrapping_mul(0xc2b2_ae35);
    h ^ (h >> 16)
}

/// The seed with which a cluster has this hash
pub fn murmur3_seed(s: &str, hash: u32) -> u32 {
    // The inverse of an odd number modulo 2^32
    let inverse = |m: u32| (0..5).fold(m, |x: u32, _| x.wrapping_mul(2u32.wrapping_sub(m.wrapping_mul(x))));
    let mut h = hash ^ (hash >> 16);
    h = h.wrapping_mul(inverse(0xc2b2_ae35));
    h ^= (h >> 13) ^ (h >> 26);
    h = h.wrapping_mul(inverse(0x85eb_ca6b));
    h ^= h >> 16;
    h ^= s.len() as u32;
    for c in s.chars().rev() {
        let k = (c as u32).wrapping_mul(0xcc9e_2d51).rotate_left(15).wrapping_mul(0x1b87_3593);
        h = h.wrapping_sub(0xe654_6b64).wrapping_mul(inverse(5)).rotate_right(13) ^ k;
    }
    h
}

#[derive(Clone, Debug, PartialEq)]
pub struct Glyph {
    pub w: usize,
    pub h: usize,
    pub yoff: usize,
    /// One word per row; bit x is the pixel in column x
    pub rows: Vec<u64>,
}

impl Glyph {
    pub fn ink(&self, x: usize, y: usize) -> bool {
        y < self.h && x < self.w && (self.rows[y] >> x) & 1 == 1
    }
    pub fn is_blank(&self) -> bool {
        self.rows.iter().all(|r| *r == 0)
    }
}

pub struct BlockInfo {
    pub lens: Vec<usize>,
    pub hashes: HashMap<u32, String>,
}

pub struct Font {
    pub name: String,
    pub max_height: usize,
    pub seed: u32,
    pub glyphs: Vec<Glyph>,
    /// cluster (or alias) -> glyph
    pub map: HashMap<String, usize>,
    /// In order: (cluster, glyph) of the index, then of the alias list
    pub entries: Vec<(String, usize)>,
    /// (canonical cluster, alias cluster)
    pub aliases: Vec<(String, String)>,
    pub max_len: usize,
    pub blocks: HashMap<usize, BlockInfo>,
}

/// One-based order of lookup: emoji, then Latin of the style, then hanzi
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FontId {
    Emoji,
    Bold,
    Regular,
    Small,
    Hanzi,
}

pub struct Fonts {
    pub emoji: Font,
    pub bold: Font,
    pub regular: Font,
    pub small: Font,
    pub hanzi: Font,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Style {
    Small,
    Regular,
    Bold,
}

pub const STYLES: [Style; 3] = [Style::Small, Style::Regular, Style::Bold];

impl Style {
    pub fn latin(self) -> FontId {
        match self {
            Style::Small => FontId::Small,
            Style::Regular => FontId::Regular,
            Style::Bold => FontId::Bold,
        }
    }
    pub fn from_u8(n: u8) -> Style {
        STYLES[n as usize % 3]
    }
}

pub fn hex_to_string(hex: &str) -> Result<String, String> {
    let mut s = String::new();
    for p in hex.split('-') {
        if p.starts_with('+') {
            return Err(format!("bad hex cluster {:?}", hex));
        }
        let n = u32::from_str_radix(p, 16).map_err(|_| format!("bad hex cluster {:?}", hex))?;
        s.push(char::from_u32(n).ok_or_else(|| format!("bad code point in {:?}", hex))?);
    }
    Ok(s)
}

#[derive(Clone, Debug)]
pub struct GlyphSetConf {
    pub name: String,
    pub seed: u32,
    pub sprites: String,
    pub size: usize,
    pub cols: usize,
    pub gutter: usize,
    pub border: usize,
    pub index: String,
    pub index_type: String,
    pub aliases: String,
    pub trim: String,
    pub rust_out: String,
}

fn get<'a>(v: &'a serde_json::Value, key: &str) -> Option<&'a serde_json::Value> {
    v.as_object()?.iter().find(|(k, _)| k.to_lowercase() == key.to_lowercase()).map(|(_, v)| v)
}

pub fn read_conf(dir: &Path) -> Result<Vec<GlyphSetConf>, String> {
    let text = std::fs::read_to_string(dir.join("config.json")).map_err(|e| format!("config.json: {}", e))?;
    let v: serde_json::Value = serde_json::from_str(&text).map_err(|e| format!("config.json: {}", e))?;
    let mut out = vec![];
    for g in get(&v, "glyphSets").and_then(|x| x.as_array()).ok_or("no glyphSets")? {
        let st = |k: &str| get(g, k).and_then(|x| x.as_str()).unwrap_or("").to_string();
        let nu = |k: &str| get(g, k).and_then(|x| x.as_u64()).unwrap_or(0);
        out.push(GlyphSetConf {
            name: st("name"),
            seed: nu("m3Seed") as u32,
            sprites: st("sprites"),
            size: nu("size") as usize,
            cols: nu("cols") as usize,
            gutter: nu("gutter") as usize,
            border: nu("border") as usize,
            index: st("index"),
            index_type: st("indexType"),
            aliases: st("aliases"),
            trim: st("glyphTrim"),
            rust_out: st("rustout"),
        });
    }
    Ok(out)
}

/// (left, right, top, bottom) limits of blank margin trimming
pub fn trim_limits(font: &str, trim: &str, size: usize, row: usize, col: usize) -> (usize, usize, usize, usize) {
    let latin = font == "Bold" || font == "Regular" || font == "Small";
    if latin {
        if row == 0 && col == 2 {
            // The space glyph keeps a 4 x 2 px box in the middle of its cell (for even sizes)
            let lr = (size / 2).saturating_sub(2);
            let tb = (size / 2).saturating_sub(1);
            return (lr, lr, tb, tb);
        }
    } else if trim == "CJK" {
        return (0, 0, 0, 0);
    }
    (size, size, size, size)
}

/// Cut a cell out of the sprite sheet and trim its blank margins
pub fn cut_glyph(img: &png::Image, g: &GlyphSetConf, row: usize, col: usize) -> Result<Glyph, String> {
    let step = g.size + g.gutter;
    let (x0, y0) = (g.border + col * step, g.border + row * step);
    if x0 + g.size > img.w || y0 + g.size > img.h {
        return Err(format!("cell {},{} of {} is outside of the sprite sheet", row, col, g.name));
    }
    let n = g.size;
    let dark = |x: usize, y: usize| img.is_dark(x0 + x, y0 + y);
    let col_blank = |x: usize| (0..n).all(|y| !dark(x, y));
    let row_blank = |y: usize| (0..n).all(|x| !dark(x, y));
    let (ll, lr, lt, lb) = trim_limits(&g.name, &g.trim, n, row, col);
    let mut left = 0;
    while left < n && left < ll && col_blank(left) {
        left += 1;
    }
    let mut right = n;
    while right > left && n - right < lr && col_blank(right - 1) {
        right -= 1;
    }
    if right == left {
        return Ok(Glyph { w: 0, h: 0, yoff: 0, rows: vec![] });
    }
    let mut top = 0;
    while top < n && top < lt && row_blank(top) {
        top += 1;
    }
    let mut bottom = n;
    while bottom > top && n - bottom < lb && row_blank(bottom - 1) {
        bottom -= 1;
    }
    let rows = (top..bottom)
        .map(|y| (left..right).fold(0u64, |a, x| a | ((dark(x, y) as u64) << (x - left))))
        .collect();
    Ok(Glyph { w: right - left, h: bottom - top, yoff: top, rows })
}

fn strip_comment(line: &str) -> &str {
    line.split('#').next().unwrap_or("").trim()
}

pub fn load_font(dir: &Path, g: &GlyphSetConf) -> Result<Font, String> {
    let rd = |p: &str| std::fs::read(dir.join(p)).map_err(|e| format!("{}: {}", p, e));
    let img = png::decode(&rd(&g.sprites)?).map_err(|e| format!("{}: {}", g.sprites, e))?;
    let index_text = String::from_utf8(rd(&g.index)?).map_err(|e| e.to_string())?;
    // (hex, row, col)
    let mut cells: Vec<(String, usize, usize)> = vec![];
    if g.index_type == "txt-row-major" {
        for line in index_text.lines() {
            let t = strip_comment(line);
            if !t.is_empty() {
                let n = cells.len();
                cells.push((t.to_string(), n / g.cols, n % g.cols));
            }
        }
    } else {
        let v: serde_json::Value = serde_json::from_str(&index_text).map_err(|e| format!("{}: {}", g.index, e))?;
        for e in get(&v, "map").and_then(|x| x.as_array()).ok_or("no map in json index")? {
            let hex = get(e, "hex").and_then(|x| x.as_str()).ok_or("no hex")?;
            let row = get(e, "row").and_then(|x| x.as_u64()).ok_or("no row")?;
            let col = get(e, "col").and_then(|x| x.as_u64()).ok_or("no col")?;
            cells.push((hex.to_string(), row as usize, col as usize));
        }
    }
    let mut f = Font {
        name: g.name.clone(),
        max_height: g.size,
        seed: g.seed,
        glyphs: vec![],
        map: HashMap::new(),
        entries: vec![],
        aliases: vec![],
        max_len: 0,
        blocks: HashMap::new(),
    };
    for (hex, row, col) in cells {
        let s = hex_to_string(&hex)?;
        let glyph = cut_glyph(&img, g, row, col)?;
        let i = f.glyphs.len();
        f.glyphs.push(glyph);
        f.add(s, i)?;
    }
    if !g.aliases.is_empty() {
        let text = String::from_utf8(rd(&g.aliases)?).map_err(|e| e.to_string())?;
        for line in text.lines() {
            let parts: Vec<&str> = strip_comment(line).split_whitespace().collect();
            if !parts.is_empty() {
                if parts.len() != 2 {
                    return Err(format!("bad alias line {:?}", line));
                }
                let canon = hex_to_string(parts[0])?;
                let alias = hex_to_string(parts[1])?;
                let i = *f.map.get(&canon).ok_or_else(|| format!("alias of unknown cluster {}", parts[0]))?;
                f.add(alias.clone(), i)?;
                f.aliases.push((canon, alias));
            }
        }
    }
    for b in f.blocks.values_mut() {
        b.lens.sort();
        b.lens.dedup();
        b.lens.reverse();
    }
    Ok(f)
}

impl Font {
    fn add(&mut self, s: String, glyph: usize) -> Result<(), String> {
        let n = s.chars().count();
        self.max_len = self.max_len.max(n);
        let b = block_of(s.chars().next().unwrap() as u32).ok_or_else(|| format!("{:?} is in no known Unicode block", s))?;
        let bi = self.blocks.entry(b).or_insert_with(|| BlockInfo { lens: vec![], hashes: HashMap::new() });
        bi.lens.push(n);
        bi.hashes.insert(murmur3(&s, self.seed), s.clone());
        self.entries.push((s.clone(), glyph));
        if self.map.insert(s.clone(), glyph).is_some() {
            return Err(format!("cluster {:?} is listed twice", s));
        }
        Ok(())
    }

    /// Longest known cluster that s starts with: (byte length, glyph)
    pub fn longest(&self, s: &str) -> Option<(usize, usize)> {
        let mut ends = [0usize; 128];
        let mut n = 0;
        for (i, c) in s.char_indices() {
            if n == self.max_len || n == 128 {
                break;
            }
            ends[n] = i + c.len_utf8();
            n += 1;
        }
        while n > 0 {
            if let Some(g) = self.map.get(&s[..ends[n - 1]]) {
                return Some((ends[n - 1], *g));
            }
            n -= 1;
        }
        None
    }

    /// The known defect of the hash index (see known_findings.json): a prefix of s
    /// that is no cluster of this font but has the same 32-bit hash as one in the
    /// same Unicode block, and that a longest-first hash lookup tries before it
    /// finds the true longest match. Returns (bytes of the prefix, colliding cluster).
    pub fn collision(&self, s: &str, true_len: Option<usize>) -> Option<(usize, &str)> {
        let c = s.chars().next()?;
        let bi = self.blocks.get(&block_of(c as u32)?)?;
        for lim in &bi.lens {
            let end = s.char_indices().nth(*lim).map(|x| x.0).unwrap_or(s.len());
            if let Some(t) = true_len {
                if end <= t {
                    return None;
                }
            }
            let p = &s[..end];
            if self.map.contains_key(p) {
                return None;
            }
            if let Some(k) = bi.hashes.get(&murmur3(p, self.seed)) {
                return Some((end, k));
            }
        }
        None
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
    Newline,
    /// Known cluster
    Glyph { font: FontId, glyph: usize, len: usize },
    /// Unknown code point of this byte length
    Missing { font: FontId, glyph: usize, len: usize },
}

impl Seg {
    pub fn len(&self) -> usize {
        match self {
            Seg::Newline => 1,
            Seg::Glyph { len, .. } | Seg::Missing { len, .. } => *len,
        }
    }
    pub fn font_glyph(&self) -> Option<(FontId, usize)> {
        match self {
            Seg::Newline => None,
            Seg::Glyph { font, glyph, .. } | Seg::Missing { font, glyph, .. } => Some((*font, *glyph)),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Collision {
    pub font: FontId,
    pub prefix: String,
    pub entry: String,
}

impl Fonts {
    pub fn load(dir: &Path) -> Result<Fonts, String> {
        let conf = read_conf(dir)?;
        let find = |n: &str| -> Result<Font, String> {
            let g = conf.iter().find(|g| g.name == n).ok_or_else(|| format!("font {} is not configured", n))?;
            load_font(dir, g)
        };
        Ok(Fonts { emoji: find("Emoji")?, bold: find("Bold")?, regular: find("Regular")?, small: find("Small")?, hanzi: find("Hanzi")? })
    }

    pub fn font(&self, id: FontId) -> &Font {
        match id {
            FontId::Emoji => &self.emoji,
            FontId::Bold => &self.bold,
            FontId::Regular => &self.regular,
            FontId::Small => &self.small,
            FontId::Hanzi => &self.hanzi,
        }
    }

    pub fn glyph(&self, fg: (FontId, usize)) -> &Glyph {
        &self.font(fg.0).glyphs[fg.1]
    }

    /// First segment of s (not empty). With follow_collisions, segment the way the
    /// unverified hash index of the library does (the known defect).
    fn first_seg(&self, s: &str, style: Style, follow: bool, col: &mut Option<Collision>) -> Seg {
        let c = s.chars().next().unwrap();
        if c == '\n' {
            return Seg::Newline;
        }
        for id in [FontId::Emoji, style.latin(), FontId::Hanzi] {
            let f = self.font(id);
            let hit = f.longest(s);
            if let Some((end, entry)) = f.collision(s, hit.map(|h| h.0)) {
                if col.is_none() {
                    *col = Some(Collision { font: id, prefix: s[..end].to_string(), entry: entry.to_string() });
                }
                if follow {
                    return Seg::Glyph { font: id, glyph: f.map[entry], len: end };
                }
            }
            if let Some((len, glyph)) = hit {
                return Seg::Glyph { font: id, glyph, len };
            }
        }
        let id = style.latin();
        let glyph = *self.font(id).map.get("\u{FFFD}").expect("Latin fonts have a replacement character");
        Seg::Missing { font: id, glyph, len: c.len_utf8() }
    }

    /// Ideal segmentation, and the first hash collision met, if any
    pub fn segment(&self, s: &str, style: Style) -> (Vec<Seg>, Option<Collision>) {
        self.segment_with(s, style, false)
    }

    pub fn segment_with(&self, s: &str, style: Style, follow: bool) -> (Vec<Seg>, Option<Collision>) {
        let mut col = None;
        let mut v = vec![];
        let mut i = 0;
        while i < s.len() {
            let g = self.first_seg(&s[i..], style, follow, &mut col);
            i += g.len();
            v.push(g);
        }
        (v, col)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Rect {
    pub x0: usize,
    pub y0: usize,
    pub x1: usize,
    pub y1: usize,
}

impl Rect {
    pub fn valid(&self) -> bool {
        self.x0 < self.x1 && self.x1 <= W && self.y0 < self.y1 && self.y1 <= H
    }
    pub fn contains(&self, x: usize, y: usize) -> bool {
        self.x0 <= x && x < self.x1 && self.y0 <= y && y < self.y1
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Cur {
    pub x: usize,
    pub y: usize,
    pub lh: usize,
}

pub fn get_px(fb: &[u32], x: usize, y: usize) -> bool {
    (fb[y * WPL + x / 32] >> (x % 32)) & 1 == 1
}

pub fn flip_px(fb: &mut [u32], x: usize, y: usize) {
    fb[y * WPL + x / 32] ^= 1 << (x % 32);
}

/// A glyph placed by the model; its ink starts at (x, y)
#[derive(Clone, Debug)]
pub struct Placed {
    pub fg: (FontId, usize),
    pub x: usize,
    pub y: usize,
    pub wrapped: bool,
    pub before: Cur,
    pub after: Cur,
}

fn newline(fonts: &Fonts, clip: Rect, c: &mut Cur) {
    c.x = clip.x0;
    // At least the height of the small font (24 px)
    c.y = c.y.saturating_add(c.lh.max(fonts.small.max_height).saturating_add(1));
    c.lh = 0;
}

/// Draw a glyph's ink at (x, y), limited to clip, by inverting pixels
pub fn draw(fb: &mut [u32], clip: Rect, g: &Glyph, x: usize, y: usize) {
    if y >= clip.y1 || x >= clip.x1 {
        return;
    }
    for r in 0..g.h {
        for k in 0..g.w {
            if g.ink(k, r) && clip.contains(x + k, y + r) {
                flip_px(fb, x + k, y + r);
            }
        }
    }
}

/// Lay out and draw one segment. Precondition: clip is on the screen and not empty.
pub fn step(fonts: &Fonts, fb: &mut [u32], clip: Rect, c: &mut Cur, seg: &Seg) -> Option<Placed> {
    let fg = match seg.font_glyph() {
        None => {
            newline(fonts, clip, c);
            return None;
        }
        Some(fg) => fg,
    };
    let g = fonts.glyph(fg);
    c.x = c.x.max(clip.x0);
    let before = *c;
    let mut wrapped = false;
    if c.x.saturating_add(g.w + 3) >= clip.x1 {
        newline(fonts, clip, c);
        wrapped = true;
    }
    let x = c.x + 1;
    let y = c.y.saturating_add(g.yoff);
    draw(fb, clip, g, x, y);
    c.x += g.w + 3;
    c.lh = c.lh.max(fonts.font(fg.0).max_height);
    Some(Placed { fg, x, y, wrapped, before, after: *c })
}

/// Reference renderer
pub fn paint(fonts: &Fonts, fb: &mut [u32], clip: Rect, c: &mut Cur, segs: &[Seg]) -> Vec<Placed> {
    segs.iter().filter_map(|s| step(fonts, fb, clip, c, s)).collect()
}

/// Reference clear_region
pub fn clear(fb: &mut [u32], r: Rect) {
    if !r.valid() {
        return;
    }
    for y in r.y0..r.y1 {
        for x in r.x0..r.x1 {
            fb[y * WPL + x / 32] |= 1 << (x % 32);
        }
    }
}

/// Mask of the pixels inside a rectangle (nothing if the rectangle is not valid)
pub fn mask(r: Rect) -> Vec<u32> {
    let mut m = vec![0u32; FB_WORDS];
    clear(&mut m, r);
    m
}
