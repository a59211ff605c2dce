//! A modelled file system standing in for the parts of the standard library the tail reader uses: one file whose
//! bytes become visible as the writer's schedule decides, the same content to everybody.
pub mod error { pub use ::std::error::*; }
pub mod thread { pub use ::std::thread::*; }
pub mod io { pub use ::std::io::*; }
pub mod time {
    pub use ::std::time::Duration;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
    pub struct SystemTime(pub u64);
}
pub mod path {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct PathBuf(pub u8);
    pub type Path = PathBuf;
    impl PathBuf { pub fn exists(&self) -> bool { super::fs::tick(); super::fs::visible().is_some() } pub fn try_exists(&self) -> ::std::io::Result<bool> { Ok(self.exists()) } pub fn is_file(&self) -> bool { self.exists() } pub fn to_str(&self) -> Option<&str> { Some("out") } pub fn as_path(&self) -> &PathBuf { self } }
    impl From<&str> for PathBuf { fn from(_: &str) -> Self { PathBuf(0) } }
    impl AsRef<PathBuf> for PathBuf { fn as_ref(&self) -> &PathBuf { self } }
}
pub mod os { pub mod unix { pub mod fs { pub trait MetadataExt { fn dev(&self) -> u64; fn ino(&self) -> u64; fn size(&self) -> u64; } impl MetadataExt for super::super::super::fs::Metadata { fn dev(&self) -> u64 { self.dev } fn ino(&self) -> u64 { self.ino } fn size(&self) -> u64 { self.len } } } } }
pub mod fs {
    use ::std::io;
    pub static mut DATA: [u8; 64] = [0; 64];
    /// visible length, file number, device, whether the file is there
    pub static mut LEN: usize = 0; pub static mut INO: u64 = 1; pub static mut DEV: u64 = 1; pub static mut BORN: u64 = 1; pub static mut THERE: bool = true;
    /// lengths that become visible at the next operations
    pub static mut NEXT: [usize; 8] = [0; 8]; pub static mut QUEUED: usize = 0; pub static mut AT: usize = 0;
    pub fn queue(n: &[usize]) { unsafe { for k in 0..n.len() { NEXT[k] = n[k]; } QUEUED = n.len(); AT = 0; } }
    pub fn tick() { unsafe { if AT < QUEUED { LEN = NEXT[AT]; AT += 1; } } }
    pub fn visible() -> Option<usize> { unsafe { if THERE { Some(LEN) } else { None } } }
    pub struct Metadata { pub len: u64, pub dev: u64, pub ino: u64, born: u64 }
    impl Metadata { pub fn len(&self) -> u64 { self.len } pub fn created(&self) -> io::Result<super::time::SystemTime> { Ok(super::time::SystemTime(self.born)) } pub fn modified(&self) -> io::Result<super::time::SystemTime> { Ok(super::time::SystemTime(self.len)) } }
    pub fn metadata<P: AsRef<super::path::PathBuf>>(_: P) -> io::Result<Metadata> { tick(); match visible() { Some(n) => unsafe { Ok(Metadata { len: n as u64, dev: DEV, ino: INO, born: BORN }) }, None => Err(io::ErrorKind::NotFound.into()) } }
    #[derive(Debug)]
    pub struct File { pos: usize }
    impl File { pub fn open<P: AsRef<super::path::PathBuf>>(_: P) -> io::Result<File> { if visible().is_some() { Ok(File { pos: 0 }) } else { Err(io::ErrorKind::NotFound.into()) } } pub fn metadata(&self) -> io::Result<Metadata> { metadata(super::path::PathBuf(0)) } }
    /// whether the bytes begin or end inside a two-byte character
    fn cut(d: &[u8]) -> bool { d.len() > 0 && (d[d.len() - 1] >= 0xc0 || d[0] & 0xc0 == 0x80) }
    fn rest(pos: usize) -> &'static [u8] { unsafe { let all: &'static [u8; 64] = &*(&raw const DATA); if pos < LEN { &all[pos..LEN] } else { &[] } } }
    impl io::Read for File {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let r = rest(self.pos); let n = if r.len() < b.len() { r.len() } else { b.len() }; for k in 0..n { b[k] = r[k]; } self.pos += n; Ok(n) }
        fn read_to_end(&mut self, v: &mut Vec<u8>) -> io::Result<usize> { tick(); let r = rest(self.pos); v.extend_from_slice(r); self.pos += r.len(); Ok(r.len()) }
        fn read_to_string(&mut self, s: &mut String) -> io::Result<usize> {
            tick(); let r = rest(self.pos);
            self.pos += r.len();
            if cut(r) { return Err(io::ErrorKind::InvalidData.into()); }
            s.push_str(unsafe { ::std::str::from_utf8_unchecked(r) }); Ok(r.len())
        }
    }
    impl io::Seek for File {
        fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> { self.pos = match p { io::SeekFrom::Start(k) => k as usize, io::SeekFrom::Current(k) => (self.pos as i64 + k) as usize, io::SeekFrom::End(k) => unsafe { (LEN as i64 + k) as usize } }; Ok(self.pos as u64) }
        fn stream_position(&mut self) -> io::Result<u64> { Ok(self.pos as u64) }
    }
}
