//! Environment stub for `png` 0.17: the container is replaced by a plain one, the decoder's transformations are modelled.
//! File: width u32, height u32 (little endian), colour type, bit depth, tRNS present, number of palette entries;
//! palette (3 bytes each), tRNS (palette: one byte per entry, gray: 2 bytes, RGB: 6 bytes, big endian 16 bits);
//! samples row by row, one byte each (depth up to 8) or two, big endian (depth 16).
use std::io::{Read, Write};
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(u8)]
pub enum ColorType { Grayscale = 0, Rgb = 2, Indexed = 3, GrayscaleAlpha = 4, Rgba = 6 }
impl ColorType {
    pub fn samples(self) -> usize { match self { ColorType::Grayscale | ColorType::Indexed => 1, ColorType::GrayscaleAlpha => 2, ColorType::Rgb => 3, ColorType::Rgba => 4 } }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(u8)]
pub enum BitDepth { One = 1, Two = 2, Four = 4, Eight = 8, Sixteen = 16 }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Transformations(u32);
impl Transformations {
    pub const IDENTITY: Transformations = Transformations(0);
    pub const STRIP_16: Transformations = Transformations(1);
    pub const EXPAND: Transformations = Transformations(0x10);
    pub const ALPHA: Transformations = Transformations(0x10000);
    pub fn normalize_to_color8() -> Transformations { Transformations(0x11) }
    pub fn contains(&self, o: Transformations) -> bool { self.0 & o.0 == o.0 }
    pub const fn union(self, o: Transformations) -> Transformations { Transformations(self.0 | o.0) }
}
impl std::ops::BitOr for Transformations { type Output = Self; fn bitor(self, o: Self) -> Self { Transformations(self.0 | o.0) } }
impl std::ops::BitOrAssign for Transformations { fn bitor_assign(&mut self, o: Self) { self.0 |= o.0 } }
#[derive(Debug)]
pub enum DecodingError { Format }
impl std::fmt::Display for DecodingError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("png") } }
impl std::error::Error for DecodingError {}
#[derive(Debug)]
pub enum EncodingError { Format, Io }
impl std::fmt::Display for EncodingError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("png") } }
impl std::error::Error for EncodingError {}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct OutputInfo { pub width: u32, pub height: u32, pub color_type: ColorType, pub bit_depth: BitDepth, pub line_size: usize }
impl OutputInfo { pub fn buffer_size(&self) -> usize { self.line_size * self.height as usize } }
#[derive(Debug, Clone)]
pub struct Info { pub width: u32, pub height: u32, pub color_type: ColorType, pub bit_depth: BitDepth }
impl Info { pub fn size(&self) -> (u32, u32) { (self.width, self.height) } }
pub struct Decoder<R: Read> { r: R, t: Transformations }
pub struct Reader<R: Read> { _r: R, t: Transformations, info: Info, trns: Option<Vec<u8>>, pal: Vec<u8>, raw: Vec<u8>, done: bool }
impl<R: Read> Decoder<R> {
    pub fn new(r: R) -> Self { Decoder { r, t: Transformations::IDENTITY } }
    pub fn set_transformations(&mut self, t: Transformations) { self.t = t }
    pub fn read_info(mut self) -> Result<Reader<R>, DecodingError> {
        let mut d = Vec::new();
        self.r.read_to_end(&mut d).map_err(|_| DecodingError::Format)?;
        if d.len() < 12 { return Err(DecodingError::Format); }
        let width = u32::from_le_bytes([d[0], d[1], d[2], d[3]]);
        let height = u32::from_le_bytes([d[4], d[5], d[6], d[7]]);
        let color_type = match d[8] { 0 => ColorType::Grayscale, 2 => ColorType::Rgb, 3 => ColorType::Indexed, 4 => ColorType::GrayscaleAlpha, 6 => ColorType::Rgba, _ => return Err(DecodingError::Format) };
        let bit_depth = match d[9] { 1 => BitDepth::One, 2 => BitDepth::Two, 4 => BitDepth::Four, 8 => BitDepth::Eight, 16 => BitDepth::Sixteen, _ => return Err(DecodingError::Format) };
        let np = d[11] as usize;
        let pal = d[12..12 + 3 * np].to_vec();
        let nt = if d[10] == 0 { 0 } else { match color_type { ColorType::Indexed => np, ColorType::Grayscale => 2, ColorType::Rgb => 6, _ => 0 } };
        let trns = if nt == 0 { None } else { Some(d[12 + 3 * np..12 + 3 * np + nt].to_vec()) };
        let raw = d[12 + 3 * np + nt..].to_vec();
        let b = if bit_depth == BitDepth::Sixteen { 2 } else { 1 };
        if raw.len() != width as usize * height as usize * color_type.samples() * b { return Err(DecodingError::Format); }
        Ok(Reader { _r: self.r, t: self.t, info: Info { width, height, color_type, bit_depth }, trns, pal, raw, done: false })
    }
}
impl<R: Read> Reader<R> {
    pub fn info(&self) -> &Info { &self.info }
    pub fn output_color_type(&self) -> (ColorType, BitDepth) {
        let alpha = self.t.0 & 0x10000 != 0;
        let expand = alpha || self.t.0 & 0x10 != 0;
        let trns = self.trns.is_some() || alpha;
        let d = match self.info.bit_depth {
            BitDepth::Sixteen => if self.t.0 & 1 != 0 { BitDepth::Eight } else { BitDepth::Sixteen },
            BitDepth::Eight => BitDepth::Eight,
            x => if expand { BitDepth::Eight } else { x },
        };
        let c = if !expand { self.info.color_type } else { match self.info.color_type {
            ColorType::Grayscale => if trns { ColorType::GrayscaleAlpha } else { ColorType::Grayscale },
            ColorType::Rgb | ColorType::Indexed => if trns { ColorType::Rgba } else { ColorType::Rgb },
            x => x,
        } };
        (c, d)
    }
    pub fn output_line_size(&self, w: u32) -> usize {
        let (c, d) = self.output_color_type();
        (w as usize * c.samples() * d as usize + 7) / 8
    }
    pub fn output_buffer_size(&self) -> usize { self.output_line_size(self.info.width) * self.info.height as usize }
    pub fn next_frame(&mut self, buf: &mut [u8]) -> Result<OutputInfo, DecodingError> {
        if self.done || buf.len() < self.output_buffer_size() { return Err(DecodingError::Format); }
        self.done = true;
        let (c, d) = self.output_color_type();
        let line = self.output_line_size(self.info.width);
        let (w, h, n) = (self.info.width as usize, self.info.height as usize, self.info.color_type.samples());
        let two = self.info.bit_depth == BitDepth::Sixteen;
        let m = c.samples();
        for y in 0..h {
            for x in 0..w {
                let p = (y * w + x) * n;
                let hi = |k: usize| if two { self.raw[2 * (p + k)] } else { self.raw[p + k] };
                let lo = |k: usize| if two { self.raw[2 * (p + k) + 1] } else { 0 };
                if (d as u8) < 8 {            // packed as stored
                    let bits = d as usize;
                    let i = x * n * bits;
                    buf[y * line + i / 8] |= self.raw[p] << (8 - bits - i % 8);
                    continue;
                }
                let mut o = [0u8; 4];
                let mut ol = [0u8; 4];
                if c == self.info.color_type && self.info.bit_depth as u8 >= 8 {
                    for k in 0..n { o[k] = hi(k); ol[k] = lo(k); }
                } else {
                    match self.info.color_type {
                        ColorType::Indexed => {
                            let i = self.raw[p] as usize;
                            // a palette index beyond the palette is black
                            for k in 0..3 { o[k] = if 3 * i + 2 < self.pal.len() { self.pal[3 * i + k] } else { 0 }; }
                            if m == 4 { o[3] = match &self.trns { Some(t) if i < t.len() => t[i], _ => 255 }; }
                        }
                        ColorType::Grayscale => {
                            let f = match self.info.bit_depth { BitDepth::One => 255, BitDepth::Two => 85, BitDepth::Four => 17, _ => 1 };
                            o[0] = if two { hi(0) } else { hi(0) * f };
                            ol[0] = lo(0);
                            if m == 2 { o[1] = match &self.trns { Some(t) => if two { if t[0] == hi(0) && t[1] == lo(0) { 0 } else { 255 } } else if t[1] == hi(0) { 0 } else { 255 }, None => 255 }; ol[1] = o[1]; }
                        }
                        ColorType::Rgb => {
                            let mut same = self.trns.is_some();
                            for k in 0..3 {
                                o[k] = hi(k); ol[k] = lo(k);
                                if let Some(t) = &self.trns { same &= if two { t[2 * k] == o[k] && t[2 * k + 1] == ol[k] } else { t[2 * k + 1] == o[k] }; }
                            }
                            o[3] = if same { 0 } else { 255 }; ol[3] = o[3];
                        }
                        _ => for k in 0..n { o[k] = hi(k); ol[k] = lo(k); },
                    }
                }
                for k in 0..m {
                    if d == BitDepth::Sixteen { buf[y * line + 2 * (x * m + k)] = o[k]; buf[y * line + 2 * (x * m + k) + 1] = ol[k]; }
                    else { buf[y * line + x * m + k] = o[k]; }
                }
            }
        }
        Ok(OutputInfo { width: self.info.width, height: self.info.height, color_type: c, bit_depth: d, line_size: line })
    }
}
pub struct Encoder<W: Write> { w: W, width: u32, height: u32, c: ColorType, d: BitDepth }
pub struct Writer<W: Write> { w: W, size: usize, done: bool }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Compression { Default, Fast, Best, Huffman, Rle }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FilterType { NoFilter, Sub, Up, Avg, Paeth }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum AdaptiveFilterType { Adaptive, NonAdaptive }
impl<W: Write> Encoder<W> {
    pub fn set_compression(&mut self, _: Compression) {}
    pub fn set_filter(&mut self, _: FilterType) {}
    pub fn set_adaptive_filter(&mut self, _: AdaptiveFilterType) {}
    pub fn new(w: W, width: u32, height: u32) -> Self { Encoder { w, width, height, c: ColorType::Grayscale, d: BitDepth::Eight } }
    pub fn set_color(&mut self, c: ColorType) { self.c = c }
    pub fn set_depth(&mut self, d: BitDepth) { self.d = d }
    pub fn write_header(mut self) -> Result<Writer<W>, EncodingError> {
        if self.width == 0 || self.height == 0 { return Err(EncodingError::Format); }
        self.w.write_all(&self.width.to_le_bytes()).map_err(|_| EncodingError::Io)?;
        self.w.write_all(&self.height.to_le_bytes()).map_err(|_| EncodingError::Io)?;
        self.w.write_all(&[self.c as u8, self.d as u8, 0, 0]).map_err(|_| EncodingError::Io)?;
        let line = (self.width as usize * self.c.samples() * self.d as usize + 7) / 8;
        Ok(Writer { w: self.w, size: line * self.height as usize, done: false })
    }
}
impl<W: Write> Writer<W> {
    pub fn write_image_data(&mut self, d: &[u8]) -> Result<(), EncodingError> {
        if d.len() != self.size || self.done { return Err(EncodingError::Format); }
        self.done = true;
        self.w.write_all(d).map_err(|_| EncodingError::Io)
    }
    pub fn finish(self) -> Result<(), EncodingError> { if self.done { Ok(()) } else { Err(EncodingError::Format) } }
}
