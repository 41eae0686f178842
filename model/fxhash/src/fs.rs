//! In-memory stand-in for `std::fs` (only what text and gzip I/O needs). Nothing reaches the real file system.
use ::std::io::{self, Read, Write};
use ::std::path::Path;

struct Entry {
    name: Vec<u8>,
    data: Vec<u8>,
}
static mut FILES: Vec<Entry> = Vec::new();

#[allow(static_mut_refs)]
fn files() -> &'static mut Vec<Entry> {
    unsafe { &mut FILES }
}
fn lookup(p: &Path) -> Option<usize> {
    let n = p.as_os_str().as_encoded_bytes();
    files().iter().position(|e| e.name == n)
}

#[derive(Debug)]
pub struct File {
    ix: usize,
    pos: usize,
}
pub struct Metadata {
    len: u64,
}
impl Metadata {
    pub fn len(&self) -> u64 {
        self.len
    }
    pub fn is_file(&self) -> bool {
        true
    }
}
impl File {
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
        match lookup(p.as_ref()) {
            Some(ix) => Ok(File { ix, pos: 0 }),
            None => Err(io::Error::from(io::ErrorKind::NotFound)),
        }
    }
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
        // there are no directories
        if p.as_ref().as_os_str().as_encoded_bytes().contains(&b'/') {
            return Err(io::Error::from(io::ErrorKind::NotFound));
        }
        let ix = match lookup(p.as_ref()) {
            Some(ix) => {
                files()[ix].data.clear();
                ix
            }
            None => {
                files().push(Entry { name: p.as_ref().as_os_str().as_encoded_bytes().to_vec(), data: Vec::new() });
                files().len() - 1
            }
        };
        Ok(File { ix, pos: 0 })
    }
    pub fn metadata(&self) -> io::Result<Metadata> {
        Ok(Metadata { len: files()[self.ix].data.len() as u64 })
    }
    pub fn sync_all(&self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for File {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let d = &files()[self.ix].data;
        let n = if buf.len() < d.len() - self.pos { buf.len() } else { d.len() - self.pos };
        let mut i = 0;
        while i < n {
            buf[i] = d[self.pos + i];
            i += 1;
        }
        self.pos += n;
        Ok(n)
    }
}
impl Write for File {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        files()[self.ix].data.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
pub fn metadata<P: AsRef<Path>>(p: P) -> io::Result<Metadata> {
    File::open(p)?.metadata()
}
pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
    let mut s = String::new();
    File::open(p)?.read_to_string(&mut s)?;
    Ok(s)
}
