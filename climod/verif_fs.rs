//! Stand-in for std::fs: one input file and one output file in the harness's memory.
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::path::Path;
pub static mut IN: *const u8 = core::ptr::null();
pub static mut IN_LEN: usize = 0;
pub static mut OUT: *mut u8 = core::ptr::null_mut();
pub static mut OUT_CAP: usize = 0;
pub static mut OUT_LEN: usize = 0;
pub static mut KIND: u32 = 0;
pub fn in_name() -> &'static str { match unsafe { KIND } { 0 => "d/in.png", 1 => "d/in.jpg", 2 => "d/in.jpeg", 4 => "d/in.PNG", 5 => "d/in.bmp", 6 => "d/in", 7 => "d/in.Jpg", _ => "d/in.dds" } }
pub fn out_name() -> &'static str { match unsafe { KIND } { 3 => "in.png", _ => "in.dds" } }
pub struct File { pos: usize, write: bool, drop: bool }
impl File {
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
        if p.as_ref().as_os_str().as_encoded_bytes() != in_name().as_bytes() { return Err(io::ErrorKind::NotFound.into()); }
        Ok(File { pos: 0, write: false, drop: false })
    }
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
        let n = p.as_ref().as_os_str().as_encoded_bytes();
        let main = n == out_name().as_bytes() || n == b"out.bin";
        if main { unsafe { OUT_LEN = 0; } }
        Ok(File { pos: 0, write: true, drop: !main })
    }
}
impl Read for File {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.write { return Err(io::ErrorKind::PermissionDenied.into()); }
        let n = unsafe { IN_LEN } - self.pos;
        let n = if n < b.len() { n } else { b.len() };
        unsafe { core::ptr::copy_nonoverlapping(IN.add(self.pos), b.as_mut_ptr(), n); }
        self.pos += n;
        Ok(n)
    }
}
impl Write for File {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if !self.write { return Err(io::ErrorKind::PermissionDenied.into()); }
        if self.drop { return Ok(b.len()); }
        unsafe {
            assert!(b.len() <= OUT_CAP - OUT_LEN, "output file larger than expected");
            core::ptr::copy_nonoverlapping(b.as_ptr(), OUT.add(OUT_LEN), b.len());
            OUT_LEN += b.len();
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl Seek for File {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let n = match p { SeekFrom::Start(n) => n as i64, SeekFrom::Current(n) => self.pos as i64 + n, SeekFrom::End(n) => unsafe { IN_LEN as i64 + n } };
        if self.write || n < 0 || n as usize > unsafe { IN_LEN } { return Err(io::ErrorKind::Unsupported.into()); }
        self.pos = n as usize;
        Ok(n as u64)
    }
}
impl File {
    pub fn sync_all(&self) -> io::Result<()> { Ok(()) }
    pub fn sync_data(&self) -> io::Result<()> { Ok(()) }
}
#[derive(Clone, Debug, Default)]
pub struct OpenOptions { w: bool, create: bool }
impl OpenOptions {
    pub fn new() -> Self { Self::default() }
    pub fn read(&mut self, _: bool) -> &mut Self { self }
    pub fn write(&mut self, b: bool) -> &mut Self { self.w = b; self }
    pub fn create(&mut self, b: bool) -> &mut Self { self.create = b; self }
    pub fn truncate(&mut self, _: bool) -> &mut Self { self }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> { if self.w { if self.create { File::create(p) } else { Err(io::ErrorKind::NotFound.into()) } } else { File::open(p) } }
}
pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> { let mut v = Vec::new(); File::open(p)?.read_to_end(&mut v)?; Ok(v) }
pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> { File::create(p)?.write_all(c.as_ref()) }
