//! Archives written byte by byte, so that any entry can be put into one, whatever a library would
//! say about it; and a monitor that keeps the code under test inside given directories.
use std::cell::RefCell;
use std::io::Write;
use std::path::{Path, PathBuf};

use super::sys::{self, Answer, Env, Op, K};

#[derive(Clone, Debug, PartialEq)]
pub struct Z {
    pub name: Vec<u8>,
    pub data: Vec<u8>,
    /// unix mode, or none (an entry made on DOS)
    pub mode: Option<u32>,
    pub utf8: bool,
    pub deflate: bool,
}

impl Z {
    pub fn file(name: &str, data: impl AsRef<[u8]>) -> Z {
        Z { name: name.as_bytes().to_vec(), data: data.as_ref().to_vec(), mode: Some(0o100644), utf8: true, deflate: false }
    }
    pub fn exe(name: &str, data: impl AsRef<[u8]>) -> Z {
        Z { mode: Some(0o100755), ..Z::file(name, data) }
    }
    pub fn dir(name: &str) -> Z {
        Z { mode: Some(0o40755), ..Z::file(name, "") }
    }
    pub fn link(name: &str, to: &str) -> Z {
        Z { mode: Some(0o120777), ..Z::file(name, to) }
    }
}

fn crc32(data: &[u8]) -> u32 {
    let mut h = flate2::Crc::new();
    h.update(data);
    h.sum()
}

/// Ways to write the same zip file
#[derive(Clone, Debug, Default)]
pub struct Pack {
    /// sizes and checksums behind the data
    pub descriptor: bool,
    /// sizes as Python writes them when they are not known in advance
    pub zip64: bool,
    pub extra: &'static [u8],
    pub comment: &'static [u8],
    pub before: &'static [u8],
    /// the directory lists the members in the order of their names, not that of the data
    pub shuffled: bool,
}

/// A zip file.
pub fn zip(entries: &[Z]) -> Vec<u8> {
    zip_as(entries, &Pack::default())
}

pub fn zip_as(entries: &[Z], pack: &Pack) -> Vec<u8> {
    let mut out: Vec<u8> = pack.before.to_vec();
    let mut dir: Vec<u8> = vec![];
    let mut order: Vec<usize> = (0..entries.len()).collect();
    if pack.shuffled {
        // the data from the last to the first
        order.reverse();
    }
    let mut dirs = vec![vec![]; entries.len()];
    for n in order {
        let e = &entries[n];
        let dir = &mut dirs[n];
        let at = out.len() as u32;
        let flags: u16 = if e.utf8 { 0x800 } else { 0 } | if pack.descriptor { 8 } else { 0 };
        let mut common: Vec<u8> = vec![];
        common.extend((if pack.zip64 { 45u16 } else { 20 }).to_le_bytes());
        common.extend(flags.to_le_bytes());
        let packed = if e.deflate {
            let mut z = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::fast());
            z.write_all(&e.data).unwrap();
            z.finish().unwrap()
        } else {
            e.data.clone()
        };
        common.extend((if e.deflate { 8u16 } else { 0 }).to_le_bytes());
        common.extend([0, 0, 0x21, 0x50]);
        common.extend(crc32(&e.data).to_le_bytes());
        common.extend((packed.len() as u32).to_le_bytes());
        common.extend((e.data.len() as u32).to_le_bytes());
        common.extend((e.name.len() as u16).to_le_bytes());
        common.extend((pack.extra.len() as u16).to_le_bytes());
        out.extend(b"PK\x03\x04");
        let mut local = common.clone();
        let mut extra = pack.extra.to_vec();
        if pack.descriptor {
            local[10..22].fill(0);
        }
        if pack.zip64 {
            local[14..22].fill(0xff);
            extra.extend([1, 0, 16, 0]);
            let (n, m) = if pack.descriptor { (0, 0) } else { (e.data.len() as u64, packed.len() as u64) };
            extra.extend(n.to_le_bytes());
            extra.extend(m.to_le_bytes());
            local[24..26].copy_from_slice(&(extra.len() as u16).to_le_bytes());
        }
        out.extend(&local);
        out.extend(&e.name);
        out.extend(&extra);
        out.extend(&packed);
        if pack.descriptor {
            out.extend(b"PK\x07\x08");
            out.extend(crc32(&e.data).to_le_bytes());
            if pack.zip64 {
                out.extend((packed.len() as u64).to_le_bytes());
                out.extend((e.data.len() as u64).to_le_bytes());
            } else {
                out.extend((packed.len() as u32).to_le_bytes());
                out.extend((e.data.len() as u32).to_le_bytes());
            }
        }
        dir.extend(b"PK\x01\x02");
        dir.extend([20, if e.mode.is_some() { 3 } else { 0 }]);
        dir.extend(&common);
        dir.extend([0; 6]);
        dir.extend((e.mode.unwrap_or(0) << 16 | if e.name.ends_with(b"/") { 0x10 } else { 0 }).to_le_bytes());
        dir.extend(at.to_le_bytes());
        dir.extend(&e.name);
        dir.extend(pack.extra);
    }
    dirs.iter().for_each(|d| dir.extend(d));
    let at = out.len() as u32;
    out.extend(&dir);
    out.extend(b"PK\x05\x06\0\0\0\0");
    out.extend((entries.len() as u16).to_le_bytes());
    out.extend((entries.len() as u16).to_le_bytes());
    out.extend((dir.len() as u32).to_le_bytes());
    out.extend(at.to_le_bytes());
    out.extend((pack.comment.len() as u16).to_le_bytes());
    out.extend(pack.comment);
    out
}

#[derive(Clone, Debug, PartialEq)]
pub struct T {
    pub name: Vec<u8>,
    pub kind: u8,
    pub mode: u32,
    pub link: Vec<u8>,
    pub data: Vec<u8>,
    pub prefix: Vec<u8>,
    /// "ustar\0" + "00", or the older GNU and V7 forms
    pub magic: &'static [u8; 8],
}

pub const USTAR: &[u8; 8] = b"ustar\x0000";
pub const GNU: &[u8; 8] = b"ustar  \0";
pub const V7: &[u8; 8] = b"\0\0\0\0\0\0\0\0";

impl T {
    pub fn new(name: &str, kind: u8, data: impl AsRef<[u8]>) -> T {
        T { name: name.into(), kind, mode: 0o644, link: vec![], data: data.as_ref().to_vec(), prefix: vec![], magic: USTAR }
    }
    pub fn file(name: &str, data: impl AsRef<[u8]>) -> T {
        T::new(name, b'0', data)
    }
    pub fn dir(name: &str) -> T {
        T { mode: 0o755, ..T::new(name, b'5', "") }
    }
    pub fn gnu_long(name: &str) -> T {
        let mut d = name.as_bytes().to_vec();
        d.push(0);
        T { magic: GNU, ..T::new("././@LongLink", b'L', d) }
    }
    /// a header of extended attributes for the next entry
    pub fn pax(kv: &[(&str, &str)]) -> T {
        let mut d = String::new();
        for (k, v) in kv {
            let base = k.len() + v.len() + 3;
            let mut n = base + 1;
            while n != base + n.to_string().len() {
                n = base + n.to_string().len();
            }
            d += &format!("{n} {k}={v}\n");
        }
        T::new("PaxHeaders/x", b'x', d)
    }
}

pub fn tar(entries: &[T]) -> Vec<u8> {
    let mut out = vec![];
    for e in entries {
        let mut h = [0u8; 512];
        let put = |h: &mut [u8; 512], at: usize, len: usize, b: &[u8]| h[at..at + b.len().min(len)].copy_from_slice(&b[..b.len().min(len)]);
        put(&mut h, 0, 100, &e.name);
        put(&mut h, 100, 8, format!("{:07o}\0", e.mode).as_bytes());
        put(&mut h, 108, 8, b"0000000\0");
        put(&mut h, 116, 8, b"0000000\0");
        put(&mut h, 124, 12, format!("{:011o}\0", e.data.len()).as_bytes());
        put(&mut h, 136, 12, b"00000000000\0");
        put(&mut h, 148, 8, b"        ");
        h[156] = e.kind;
        put(&mut h, 157, 100, &e.link);
        put(&mut h, 257, 8, e.magic);
        put(&mut h, 345, 155, &e.prefix);
        let sum: u32 = h.iter().map(|b| *b as u32).sum();
        put(&mut h, 148, 8, format!("{sum:06o}\0 ").as_bytes());
        out.extend(h);
        out.extend(&e.data);
        out.resize((out.len() + 511) / 512 * 512, 0);
    }
    out.resize(out.len() + 1024, 0);
    out
}

pub fn gz(data: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

/// The same, in several parts, as some compressors write it
pub fn gz_parts(data: &[u8], cuts: &[usize]) -> Vec<u8> {
    let mut out = vec![];
    let mut at = 0;
    for c in cuts.iter().copied().chain([data.len()]) {
        out.extend(gz(&data[at..c]));
        at = c;
    }
    out
}

/// The same, compressed and labelled in another way
pub fn gz_like(data: &[u8], level: u32, labelled: bool) -> Vec<u8> {
    let mut b = flate2::GzBuilder::new().mtime(1_600_000_000);
    if labelled {
        b = b.filename("pkg-1.0.tar").comment("with a comment").extra(&b"AB\x02\0xy"[..]).operating_system(3);
    }
    let mut e = b.write(vec![], flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

/// Keeps every file operation of this thread inside some directories: one that would touch
/// anything else is refused, and noted. Where a path leads is decided by the file system
/// itself (symbolic links included), not by its text.
pub struct Confine {
    pub roots: Vec<PathBuf>,
    /// may be read, too
    pub readable: Vec<PathBuf>,
    pub escapes: RefCell<Vec<String>>,
    pub ops: RefCell<u64>,
}

impl Confine {
    pub fn new(roots: &[&Path]) -> Confine {
        Confine {
            roots: roots.iter().map(|r| std::fs::canonicalize(r).unwrap()).collect(),
            readable: ["/proc", "/dev", "/sys"].iter().map(PathBuf::from).collect(),
            escapes: Default::default(),
            ops: Default::default(),
        }
    }

    pub fn leads_to(&self, p: &str, follow: bool) -> PathBuf {
        self.leads(p, follow, 0)
    }

    fn leads(&self, p: &str, follow: bool, depth: usize) -> PathBuf {
        let p = Path::new(p);
        if follow {
            if let Ok(r) = std::fs::canonicalize(p) {
                return r;
            }
        }
        // the nearest existing ancestor, then the rest as text
        let mut rest: Vec<std::ffi::OsString> = vec![];
        let mut cur = p.to_path_buf();
        loop {
            let comps: Vec<_> = cur.components().collect();
            let Some(last) = comps.last() else { return p.into() };
            rest.push(last.as_os_str().to_os_string());
            let parent: PathBuf = comps[..comps.len() - 1].iter().collect();
            if comps.len() <= 1 {
                return p.into();
            }
            // a dangling link among the ancestors: the kernel will refuse
            if let Ok(r) = std::fs::canonicalize(&parent) {
                let mut r = r;
                for x in rest.iter().rev() {
                    if x == ".." {
                        r.pop();
                    } else if x != "." {
                        r.push(x);
                    }
                }
                // creating through a dangling link creates what it points to
                // (in a circle, to nothing: the kernel will refuse)
                if follow && rest.len() == 1 && depth < 45 {
                    if let Ok(t) = std::fs::read_link(&r) {
                        let t = r.parent().unwrap().join(t);
                        return self.leads(&t.to_string_lossy(), true, depth + 1);
                    }
                }
                return r;
            }
            cur = parent;
        }
    }

    fn check(&self, p: &str, follow: bool, writes: bool) -> bool {
        let real = self.leads_to(p, follow);
        self.roots.iter().any(|r| real.starts_with(r)) || (!writes && self.readable.iter().any(|r| real.starts_with(r)))
    }
}

impl Env for Confine {
    fn root(&self) -> &str {
        "/"
    }
    fn pre(&self, op: &Op) -> Answer {
        *self.ops.borrow_mut() += 1;
        let ok = match op.kind {
            K::Close | K::Sync | K::Flock | K::Read | K::Write => return Answer::Go, // of open files
            K::Truncate | K::Chmod | K::Copy => op.fd >= 0 || self.check(&op.p1, true, true),
            K::Stat => self.check(&op.p1, false, false),
            K::Open => {
                let w = op.kind.mutates(op.flags) || op.flags & 3 != 0;
                self.check(&op.p1, op.flags & 0o400000 == 0 && op.flags & 0o200 == 0, w)
            }
            K::Rename | K::Link => self.check(&op.p1, false, true) && self.check(&op.p2, false, true),
            K::Mkdir | K::Rmdir | K::Unlink | K::Symlink => self.check(&op.p1, false, true),
        };
        if ok {
            return Answer::Go;
        }
        // creating a directory that is there already touches nothing
        if op.kind == K::Mkdir && Path::new(&op.p1).is_dir() {
            return Answer::Errno(17);
        }
        self.escapes.borrow_mut().push(op.show());
        Answer::Errno(sys::EACCES)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Node {
    Dir,
    File(Vec<u8>, bool),
    Link(String),
}

/// Everything below a directory, by relative path.
pub fn tree(root: &Path) -> std::collections::BTreeMap<String, Node> {
    fn go(p: &Path, rel: &str, out: &mut std::collections::BTreeMap<String, Node>) {
        use std::os::unix::fs::PermissionsExt;
        let Ok(rd) = std::fs::read_dir(p) else { return };
        for e in rd {
            let e = e.unwrap();
            let name = format!("{rel}{}", e.file_name().to_string_lossy());
            let m = std::fs::symlink_metadata(e.path()).unwrap();
            if m.is_dir() {
                go(&e.path(), &format!("{name}/"), out);
                out.insert(name, Node::Dir);
            } else if m.is_symlink() {
                out.insert(name, Node::Link(std::fs::read_link(e.path()).unwrap().to_string_lossy().into_owned()));
            } else {
                out.insert(name, Node::File(std::fs::read(e.path()).unwrap_or_default(), m.permissions().mode() & 0o111 != 0));
            }
        }
    }
    let mut out = Default::default();
    go(root, "", &mut out);
    out
}
