//! Minimal PNG reader and writer, independent of the code generator under test.
//! Reads non-interlaced images of every color type; writes 1-bit gray, 8-bit
//! gray, 1-bit palette and 8-bit RGBA.

pub struct Image {
    pub w: usize,
    pub h: usize,
    /// true where the red component is zero (that is what the font sources call ink)
    pub dark: Vec<bool>,
}

impl Image {
    pub fn is_dark(&self, x: usize, y: usize) -> bool {
        self.dark[y * self.w + x]
    }
}

fn be32(b: &[u8]) -> usize {
    ((b[0] as usize) << 24) | ((b[1] as usize) << 16) | ((b[2] as usize) << 8) | b[3] as usize
}

pub fn decode(data: &[u8]) -> Result<Image, String> {
    if data.len() < 8 || &data[1..4] != b"PNG" {
        return Err("not a PNG".into());
    }
    let mut p = 8;
    let (mut w, mut h, mut depth, mut ctype, mut interlace) = (0, 0, 0usize, 0u8, 0u8);
    let mut palette: Vec<u8> = vec![];
    let mut z: Vec<u8> = vec![];
    while p + 12 <= data.len() {
        let n = be32(&data[p..]);
        let t = &data[p + 4..p + 8];
        let body = &data[p + 8..p + 8 + n];
        match t {
            b"IHDR" => {
                w = be32(body);
                h = be32(&body[4..]);
                depth = body[8] as usize;
                ctype = body[9];
                interlace = body[12];
            }
            b"PLTE" => palette = body.to_vec(),
            b"IDAT" => z.extend_from_slice(body),
            _ => {}
        }
        p += 12 + n;
    }
    if interlace != 0 {
        return Err("interlaced PNG not supported".into());
    }
    let channels = match ctype {
        0 | 3 => 1,
        2 => 3,
        4 => 2,
        6 => 4,
        _ => return Err("bad color type".into()),
    };
    let raw = miniz_oxide::inflate::decompress_to_vec_zlib(&z).map_err(|e| format!("inflate: {:?}", e))?;
    let bpp_bits = channels * depth;
    let stride = (w * bpp_bits + 7) / 8;
    let bpp = std::cmp::max(1, bpp_bits / 8);
    let mut prev = vec![0u8; stride];
    let mut dark = vec![false; w * h];
    let mut pos = 0;
    for y in 0..h {
        let filter = raw[pos];
        let mut line = raw[pos + 1..pos + 1 + stride].to_vec();
        pos += 1 + stride;
        for i in 0..stride {
            let a = if i >= bpp { line[i - bpp] } else { 0 } as i32;
            let b = prev[i] as i32;
            let c = if i >= bpp { prev[i - bpp] } else { 0 } as i32;
            let pred = match filter {
                0 => 0,
                1 => a,
                2 => b,
                3 => (a + b) / 2,
                4 => {
                    let q = a + b - c;
                    let (pa, pb, pc) = ((q - a).abs(), (q - b).abs(), (q - c).abs());
                    if pa <= pb && pa <= pc {
                        a
                    } else if pb <= pc {
                        b
                    } else {
                        c
                    }
                }
                _ => return Err("bad filter".into()),
            };
            line[i] = ((line[i] as i32 + pred) & 0xff) as u8;
        }
        for x in 0..w {
            let sample = |ch: usize| -> u32 {
                let bit = (x * channels + ch) * depth;
                match depth {
                    16 => ((line[bit / 8] as u32) << 8) | line[bit / 8 + 1] as u32,
                    8 => line[bit / 8] as u32,
                    _ => ((line[bit / 8] >> (8 - depth - bit % 8)) as u32) & ((1 << depth) - 1),
                }
            };
            let red = match ctype {
                3 => palette[3 * sample(0) as usize] as u32,
                // red is premultiplied with alpha
                6 => {
                    if sample(3) == 0 {
                        0
                    } else {
                        sample(0)
                    }
                }
                4 => {
                    if sample(1) == 0 {
                        0
                    } else {
                        sample(0)
                    }
                }
                _ => sample(0),
            };
            dark[y * w + x] = red == 0;
        }
        prev = line;
    }
    Ok(Image { w, h, dark })
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Format {
    Gray1,
    Gray8,
    Palette1,
    Rgba8,
    Gray2,
    Gray4,
    Gray16,
    Rgb8,
    Rgb16,
    Rgba16,
    Palette8,
    GrayAlpha8,
}

pub const FORMATS: [Format; 12] = [
    Format::Gray1,
    Format::Gray8,
    Format::Palette1,
    Format::Rgba8,
    Format::Gray2,
    Format::Gray4,
    Format::Gray16,
    Format::Rgb8,
    Format::Rgb16,
    Format::Rgba16,
    Format::Palette8,
    Format::GrayAlpha8,
];

fn crc(data: &[u8]) -> u32 {
    let mut c = 0xffff_ffffu32;
    for b in data {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { 0xedb8_8320 ^ (c >> 1) } else { c >> 1 };
        }
    }
    !c
}

fn chunk(out: &mut Vec<u8>, t: &[u8; 4], body: &[u8]) {
    out.extend_from_slice(&(body.len() as u32).to_be_bytes());
    let mut tb = t.to_vec();
    tb.extend_from_slice(body);
    out.extend_from_slice(&tb);
    out.extend_from_slice(&crc(&tb).to_be_bytes());
}

/// Encode an image where dark pixels get red == 0 and all others some nonzero red
pub fn encode(w: usize, h: usize, dark: &[bool], f: Format) -> Vec<u8> {
    let mut raw = vec![];
    for y in 0..h {
        raw.push(0);
        let row = &dark[y * w..(y + 1) * w];
        match f {
            Format::Gray1 | Format::Palette1 => {
                for c in row.chunks(8) {
                    let mut b = 0u8;
                    for (i, d) in c.iter().enumerate() {
                        // Gray1: 1 is white. Palette1: entry 0 white, entry 1 black.
                        if *d == (f == Format::Palette1) {
                            b |= 0x80 >> i;
                        }
                    }
                    raw.push(b);
                }
            }
            Format::Gray8 => raw.extend(row.iter().enumerate().map(|(i, d)| if *d { 0 } else { [255u8, 1, 128][(i + y) % 3] })),
            Format::Gray2 | Format::Gray4 => {
                let (bits, light) = if f == Format::Gray2 { (2, [3u8, 1, 2]) } else { (4, [15u8, 1, 8]) };
                for (k, c) in row.chunks(8 / bits).enumerate() {
                    let mut b = 0u8;
                    for (i, d) in c.iter().enumerate() {
                        if !*d {
                            b |= light[(k + i + y) % 3] << (8 - bits * (i + 1));
                        }
                    }
                    raw.push(b);
                }
            }
            Format::Gray16 | Format::Rgb16 | Format::Rgba16 => {
                for (i, d) in row.iter().enumerate() {
                    let v: u16 = if *d { 0 } else { [65535u16, 1, 200, 256, 40000][(i + y) % 5] };
                    raw.extend(v.to_be_bytes());
                    if f != Format::Gray16 {
                        raw.extend([[7, 7, 7, 7], [0, 0, 0, 0]][!*d as usize]);
                    }
                    if f == Format::Rgba16 {
                        raw.extend([255, 255]);
                    }
                }
            }
            Format::Rgb8 => {
                for (i, d) in row.iter().enumerate() {
                    raw.extend(if *d { [0, 77, (i % 256) as u8] } else { [[255u8, 1, 128][(i + y) % 3], 0, 0] });
                }
            }
            // Palette8: the even entries are dark
            Format::Palette8 => raw.extend(row.iter().enumerate().map(|(i, d)| 2 * ((i * 7 + y) % 100) as u8 + !*d as u8)),
            Format::GrayAlpha8 => raw.extend(row.iter().enumerate().flat_map(|(i, d)| [if *d { 0 } else { [255u8, 1, 128][(i + y) % 3] }, 255])),
            Format::Rgba8 => {
                for (i, d) in row.iter().enumerate() {
                    if *d {
                        raw.extend([0, 77, (i % 256) as u8, 255]);
                    } else {
                        raw.extend([200, 0, 0, 255]);
                    }
                }
            }
        }
    }
    let (depth, ct) = match f {
        Format::Gray1 => (1, 0),
        Format::Gray8 => (8, 0),
        Format::Palette1 => (1, 3),
        Format::Rgba8 => (8, 6),
        Format::Gray2 => (2, 0),
        Format::Gray4 => (4, 0),
        Format::Gray16 => (16, 0),
        Format::Rgb8 => (8, 2),
        Format::Rgb16 => (16, 2),
        Format::Rgba16 => (16, 6),
        Format::Palette8 => (8, 3),
        Format::GrayAlpha8 => (8, 4),
    };
    let mut out = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    let mut ihdr = vec![];
    ihdr.extend_from_slice(&(w as u32).to_be_bytes());
    ihdr.extend_from_slice(&(h as u32).to_be_bytes());
    ihdr.extend_from_slice(&[depth, ct, 0, 0, 0]);
    chunk(&mut out, b"IHDR", &ihdr);
    if f == Format::Palette1 {
        chunk(&mut out, b"PLTE", &[255, 255, 255, 0, 0, 0]);
    }
    if f == Format::Palette8 {
        let p: Vec<u8> = (0..256usize).flat_map(|i| if i % 2 == 0 { [0, i as u8, 9] } else { [i as u8, 0, 0] }).collect();
        chunk(&mut out, b"PLTE", &p);
    }
    chunk(&mut out, b"IDAT", &miniz_oxide::deflate::compress_to_vec_zlib(&raw, 1));
    chunk(&mut out, b"IEND", &[]);
    out
}
