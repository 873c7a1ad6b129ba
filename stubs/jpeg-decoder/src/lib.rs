//! Environment stub for `jpeg-decoder` 0.3: a plain container with the decoded samples.
//! File: width u16, height u16 (little endian), pixel format 0..3, samples row by row.
use std::io::Read;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum PixelFormat { L8, L16, RGB24, CMYK32 }
impl PixelFormat { pub fn pixel_bytes(&self) -> usize { match self { PixelFormat::L8 => 1, PixelFormat::L16 => 2, PixelFormat::RGB24 => 3, PixelFormat::CMYK32 => 4 } } }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CodingProcess { DctSequential, DctProgressive, Lossless }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct ImageInfo { pub width: u16, pub height: u16, pub pixel_format: PixelFormat, pub coding_process: CodingProcess }
#[derive(Debug)]
pub enum Error { Format(String) }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("jpeg") } }
impl std::error::Error for Error {}
pub struct Decoder<R> { r: R, info: Option<ImageInfo>, data: Vec<u8> }
impl<R: Read> Decoder<R> {
    pub fn new(r: R) -> Self { Decoder { r, info: None, data: Vec::new() } }
    pub fn info(&self) -> Option<ImageInfo> { self.info }
    pub fn read_info(&mut self) -> Result<(), Error> {
        if self.info.is_some() { return Ok(()); }
        let mut d = Vec::new();
        if self.r.read_to_end(&mut d).is_err() || d.len() < 5 { return Err(Error::Format(String::new())); }
        let pixel_format = match d[4] { 0 => PixelFormat::L8, 1 => PixelFormat::L16, 2 => PixelFormat::RGB24, _ => PixelFormat::CMYK32 };
        self.info = Some(ImageInfo { width: u16::from_le_bytes([d[0], d[1]]), height: u16::from_le_bytes([d[2], d[3]]), pixel_format, coding_process: CodingProcess::DctSequential });
        self.data = d[5..].to_vec();
        Ok(())
    }
    pub fn decode(&mut self) -> Result<Vec<u8>, Error> { self.read_info()?; Ok(self.data.clone()) }
}
