//! Model of flate2 for symbolic execution: "compression" prepends a marker byte, appends another one and is
//! otherwise the identity; the decoder fails where a marker is missing. (Assumption: the real codec is lossless.)
use std::io::{self, Read, Write};
pub const MARK: u8 = 0x1f;
pub const END: u8 = 0x1e;

#[derive(Clone, Copy, Debug, Default)]
pub struct Compression(u32);
impl Compression {
    pub fn new(l: u32) -> Self {
        Compression(l)
    }
    pub fn fast() -> Self {
        Compression(1)
    }
    pub fn best() -> Self {
        Compression(9)
    }
    pub fn none() -> Self {
        Compression(0)
    }
}

pub mod read {
    use super::*;
    pub struct GzDecoder<R> {
        r: R,
        data: Option<Vec<u8>>,
        pos: usize,
    }
    impl<R: Read> GzDecoder<R> {
        pub fn new(r: R) -> Self {
            GzDecoder { r, data: None, pos: 0 }
        }
    }
    impl<R: Read> Read for GzDecoder<R> {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            if self.data.is_none() {
                let mut all = Vec::with_capacity(64);
                let mut piece = [0u8; 32];
                loop {
                    let k = self.r.read(&mut piece)?;
                    if k == 0 {
                        break;
                    }
                    let mut i = 0;
                    while i < k {
                        all.push(piece[i]);
                        i += 1;
                    }
                }
                if all.len() == 0 {
                    return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
                }
                if all[0] != MARK {
                    return Err(io::Error::from(io::ErrorKind::InvalidInput));
                }
                self.data = Some(all);
                self.pos = 1;
            }
            let d = self.data.as_ref().unwrap();
            let end = if d.len() > 1 { d.len() - 1 } else { 1 };
            if self.pos >= end {
                if d.len() < 2 || d[d.len() - 1] != END {
                    return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
                }
                return Ok(0);
            }
            let mut k = 0;
            while k < buf.len() && self.pos < end {
                buf[k] = d[self.pos];
                k += 1;
                self.pos += 1;
            }
            Ok(k)
        }
    }
    pub type MultiGzDecoder<R> = GzDecoder<R>;
}
pub mod write {
    use super::*;
    pub struct GzEncoder<W: Write> {
        w: Option<W>,
        started: bool,
        ended: bool,
    }
    impl<W: Write> GzEncoder<W> {
        pub fn new(w: W, _c: Compression) -> Self {
            GzEncoder { w: Some(w), started: false, ended: false }
        }
        fn start(&mut self) -> io::Result<()> {
            if !self.started {
                self.started = true;
                self.w.as_mut().unwrap().write_all(&[MARK])?;
            }
            Ok(())
        }
        pub fn try_finish(&mut self) -> io::Result<()> {
            self.start()?;
            if !self.ended {
                self.ended = true;
                self.w.as_mut().unwrap().write_all(&[END])?;
            }
            Ok(())
        }
        pub fn finish(mut self) -> io::Result<W> {
            self.try_finish()?;
            Ok(self.w.take().unwrap())
        }
        pub fn get_ref(&self) -> &W {
            self.w.as_ref().unwrap()
        }
        pub fn get_mut(&mut self) -> &mut W {
            self.w.as_mut().unwrap()
        }
    }
    impl<W: Write> Write for GzEncoder<W> {
        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
            self.start()?;
            self.w.as_mut().unwrap().write(buf)
        }
        fn flush(&mut self) -> io::Result<()> {
            self.start()?;
            self.w.as_mut().unwrap().flush()
        }
    }
    impl<W: Write> Drop for GzEncoder<W> {
        fn drop(&mut self) {
            if self.w.is_some() {
                let _ = self.try_finish();
            }
        }
    }
}
