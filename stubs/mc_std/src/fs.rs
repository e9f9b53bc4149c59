pub use std::fs::*;
use mc_env::faults::{op, torn_error, Class, Verdict};
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::ops::Deref;
use std::path::{Path, PathBuf};

/// As the standard file; small reads go through a buffer of the file's own (the code under test reads
/// JSON byte by byte), so that one numbered operation is one block.
#[derive(Debug)]
pub struct File(std::fs::File, PathBuf, std::sync::Mutex<(Vec<u8>, usize)>);
const BLOCK: usize = 2048;
fn file(f: std::fs::File, p: &Path) -> File { File(f, p.to_path_buf(), Default::default()) }

fn n(p: &Path) -> String {
    mc_env::faults::about(p);
    // the last three components are enough to tell the files of one engine apart
    let c: Vec<_> = p.components().map(|c| c.as_os_str().to_string_lossy().to_string()).collect();
    c[c.len().saturating_sub(3)..].join("/")
}

impl File {
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
        let p = p.as_ref();
        op(Class::Read, || format!("open {}", n(p)))?;
        Ok(file(std::fs::File::open(p)?, p))
    }
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
        let p = p.as_ref();
        op(Class::Mutate, || format!("create {}", n(p)))?;
        Ok(file(std::fs::File::create(p)?, p))
    }
    pub fn create_new<P: AsRef<Path>>(p: P) -> io::Result<File> {
        let p = p.as_ref();
        op(Class::Mutate, || format!("create_new {}", n(p)))?;
        Ok(file(std::fs::File::create_new(p)?, p))
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
    pub fn sync_all(&self) -> io::Result<()> {
        op(Class::Mutate, || format!("sync {}", n(&self.1)))?;
        self.0.sync_all()
    }
    pub fn sync_data(&self) -> io::Result<()> {
        op(Class::Mutate, || format!("sync {}", n(&self.1)))?;
        self.0.sync_data()
    }
    pub fn set_len(&self, len: u64) -> io::Result<()> {
        op(Class::Mutate, || format!("set_len {}", n(&self.1)))?;
        self.0.set_len(len)
    }
    pub fn try_clone(&self) -> io::Result<File> {
        self.unread()?;
        Ok(file(self.0.try_clone()?, &self.1))
    }
}
impl Deref for File {
    type Target = std::fs::File;
    fn deref(&self) -> &std::fs::File {
        &self.0
    }
}
impl File {
    /// gives back what was read ahead
    fn unread(&self) -> io::Result<()> {
        let mut b = self.2.lock().unwrap();
        let ahead = b.0.len() - b.1;
        *b = Default::default();
        if ahead > 0 { (&self.0).seek(SeekFrom::Current(-(ahead as i64)))?; }
        Ok(())
    }
}
fn do_read(file: &File, buf: &mut [u8]) -> io::Result<usize> {
    let mut f = &file.0;
    let mut b = file.2.lock().unwrap();
    if b.1 < b.0.len() {
        let k = buf.len().min(b.0.len() - b.1);
        buf[..k].copy_from_slice(&b.0[b.1..b.1 + k]);
        b.1 += k;
        return Ok(k);
    }
    if buf.is_empty() { return Ok(0); }
    op(Class::Read, || format!("read {}", n(&file.1)))?;
    if buf.len() >= BLOCK { return f.read(buf); }
    let mut block = vec![0; BLOCK];
    let got = f.read(&mut block)?;
    block.truncate(got);
    let k = buf.len().min(got);
    buf[..k].copy_from_slice(&block[..k]);
    *b = (block, k);
    Ok(k)
}
fn do_write(f: &std::fs::File, p: &Path, buf: &[u8]) -> io::Result<usize> {
    let mut f = f;
    match op(Class::Mutate, || format!("write {} ({} bytes)", n(p), buf.len()))? {
        Verdict::Go => f.write(buf),
        Verdict::Torn => {
            f.write_all(&buf[..buf.len() / 2])?;
            Err(torn_error())
        }
    }
}
impl Read for File {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        do_read(self, buf)
    }
}
impl Read for &File {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        do_read(self, buf)
    }
}
impl Write for File {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.unread()?;
        do_write(&self.0, &self.1, buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}
impl Write for &File {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.unread()?;
        do_write(&self.0, &self.1, buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        (&self.0).flush()
    }
}
impl Seek for File {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.unread()?;
        self.0.seek(p)
    }
}
impl Seek for &File {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.unread()?;
        (&self.0).seek(p)
    }
}

#[derive(Debug, Clone)]
pub struct OpenOptions(std::fs::OpenOptions, bool);
impl OpenOptions {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        OpenOptions(std::fs::OpenOptions::new(), false)
    }
    pub fn read(&mut self, b: bool) -> &mut Self {
        self.0.read(b);
        self
    }
    pub fn write(&mut self, b: bool) -> &mut Self {
        self.1 |= b;
        self.0.write(b);
        self
    }
    pub fn append(&mut self, b: bool) -> &mut Self {
        self.1 |= b;
        self.0.append(b);
        self
    }
    pub fn truncate(&mut self, b: bool) -> &mut Self {
        self.0.truncate(b);
        self
    }
    pub fn create(&mut self, b: bool) -> &mut Self {
        self.0.create(b);
        self
    }
    pub fn create_new(&mut self, b: bool) -> &mut Self {
        self.0.create_new(b);
        self
    }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
        let p = p.as_ref();
        op(if self.1 { Class::Mutate } else { Class::Read }, || format!("open {}", n(p)))?;
        Ok(file(self.0.open(p)?, p))
    }
}

macro_rules! op1 {
    ($name:ident, $class:expr, $ret:ty) => {
        pub fn $name<P: AsRef<Path>>(p: P) -> io::Result<$ret> {
            let p = p.as_ref();
            op($class, || format!("{} {}", stringify!($name), n(p)))?;
            std::fs::$name(p)
        }
    };
}
op1!(create_dir, Class::Mutate, ());
op1!(create_dir_all, Class::Mutate, ());
op1!(remove_file, Class::Mutate, ());
op1!(remove_dir, Class::Mutate, ());
op1!(read_dir, Class::Read, ReadDir);
op1!(metadata, Class::Read, Metadata);

pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> {
    let mut f = File::open(p)?;
    let mut v = vec![];
    f.read_to_end(&mut v)?;
    Ok(v)
}
pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
    let mut f = File::open(p)?;
    let mut v = String::new();
    f.read_to_string(&mut v)?;
    Ok(v)
}
pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> {
    File::create(p)?.write_all(c.as_ref())
}
pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<()> {
    op(Class::Mutate, || format!("rename {} -> {}", n(a.as_ref()), n(b.as_ref())))?;
    std::fs::rename(a, b)
}
pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<u64> {
    let mut r = File::open(a)?;
    let mut w = File::create(b)?;
    io::copy(&mut r, &mut w)
}
/// As the standard one, but each removed entry is an operation of its own: a crash can leave any
/// part of the tree behind.
pub fn remove_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> {
    let p = p.as_ref();
    op(Class::Mutate, || format!("remove_dir_all {}", n(p)))?;
    if !std::fs::symlink_metadata(p)?.is_dir() {
        return std::fs::remove_dir_all(p);
    }
    let mut entries: Vec<PathBuf> = std::fs::read_dir(p)?.map(|e| e.map(|e| e.path())).collect::<io::Result<_>>()?;
    entries.sort();
    for e in entries {
        if std::fs::symlink_metadata(&e)?.is_dir() {
            remove_dir_all(&e)?;
        } else {
            remove_file(&e)?;
        }
    }
    remove_dir(p)
}
