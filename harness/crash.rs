//! Crash and fault injection at the file-system boundary of the real code.
//!
//! * `FaultEnv`: deviation-bounded faults. Operation number n of an execution can fail with an
//!   errno, be cut short, or be the point where the process dies (from there on no operation
//!   has any effect, so unwinding and destructors change nothing on disk).
//! * `Logger` + `disks`: record the mutating operations of a crash-free run, then build every
//!   disk a power failure could leave: directory operations persist in order up to any cut,
//!   file data that was never synced is lost wholly or partly.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::os::raw::c_long;
use std::path::Path;

use super::sys::{self, Answer, Env, Op, K};

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Fault {
    Errno(i32),
    ShortHalf,
    /// die just before this operation
    Die,
    /// die in the middle of this write
    DieTorn,
}

pub struct FaultEnv {
    root: String,
    pub plan: Vec<(usize, Fault)>,
    n: Cell<usize>,
    crashed: Cell<bool>,
    pub log: RefCell<Vec<(K, String)>>,
    stat: bool,
}

impl FaultEnv {
    pub fn new(root: &Path, plan: Vec<(usize, Fault)>, stat: bool) -> FaultEnv {
        FaultEnv {
            root: root.to_str().unwrap().into(),
            plan,
            n: Cell::new(0),
            crashed: Cell::new(false),
            log: Default::default(),
            stat,
        }
    }
    pub fn ops(&self) -> usize {
        self.n.get()
    }
    pub fn crashed(&self) -> bool {
        self.crashed.get()
    }
}

impl Env for FaultEnv {
    fn root(&self) -> &str {
        &self.root
    }
    fn want_stat(&self) -> bool {
        self.stat
    }
    fn pre(&self, op: &Op) -> Answer {
        if op.kind == K::Close {
            return Answer::Go; // the kernel closes everything when a process dies
        }
        if self.crashed.get() {
            return Answer::Errno(sys::EIO);
        }
        let i = self.n.get();
        self.n.set(i + 1);
        self.log.borrow_mut().push((op.kind, op.show()));
        match self.plan.iter().find(|(k, _)| *k == i).map(|x| x.1) {
            None => {
                if op.kind == K::Sync {
                    Answer::Fake(0) // scratch is a RAM disk
                } else {
                    Answer::Go
                }
            }
            Some(Fault::Errno(e)) => Answer::Errno(e),
            Some(Fault::ShortHalf) => {
                if op.kind == K::Write && op.data.len() > 1 {
                    Answer::Short(op.data.len() / 2)
                } else {
                    Answer::Go
                }
            }
            Some(Fault::Die) => {
                self.crashed.set(true);
                Answer::Errno(sys::EIO)
            }
            Some(Fault::DieTorn) => {
                self.crashed.set(true);
                if op.kind == K::Write && op.data.len() > 1 {
                    Answer::Short(op.data.len() / 2)
                } else {
                    Answer::Errno(sys::EIO)
                }
            }
        }
    }
}

// ---- power failure -------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum L {
    Create { path: String, ino: u64, trunc: bool },
    Mkdir(String),
    Rename(String, String),
    Link(String, String),
    Unlink(String),
    Rmdir(String),
    Symlink(String, String),
    Write { ino: u64, off: u64, data: Vec<u8> },
    Trunc { ino: u64, len: u64 },
    Sync { ino: u64 },
}

impl L {
    fn is_meta(&self) -> bool {
        !matches!(self, L::Write { .. } | L::Trunc { .. } | L::Sync { .. })
    }
}

pub struct Logger {
    root: String,
    pub log: RefCell<Vec<L>>,
    existed: RefCell<BTreeSet<String>>,
}

fn ino(fd: i32) -> u64 {
    let mut st = [0u64; 18];
    unsafe { syscall(sys::nr::FSTAT, fd as i64, st.as_mut_ptr()) };
    st[1]
}
fn pos(fd: i32) -> u64 {
    unsafe { syscall(8, fd as i64, 0i64, 1i64) as u64 }
}

impl Logger {
    pub fn new(root: &Path) -> Logger {
        Logger {
            root: root.to_str().unwrap().into(),
            log: Default::default(),
            existed: Default::default(),
        }
    }
}

impl Env for Logger {
    fn root(&self) -> &str {
        &self.root
    }
    fn pre(&self, op: &Op) -> Answer {
        if op.kind == K::Open && Path::new(&op.p1).exists() {
            self.existed.borrow_mut().insert(op.p1.clone());
        } else if op.kind == K::Open {
            self.existed.borrow_mut().remove(&op.p1);
        }
        if op.kind == K::Sync {
            self.log.borrow_mut().push(L::Sync { ino: ino(op.fd) });
            return Answer::Fake(0);
        }
        Answer::Go
    }
    fn post(&self, op: &Op, ret: i64) {
        if ret < 0 {
            return;
        }
        let mut log = self.log.borrow_mut();
        match op.kind {
            K::Open => {
                let fd = ret as i32;
                let existed = self.existed.borrow().contains(&op.p1);
                if op.flags & 0o100 != 0 && !existed {
                    log.push(L::Create { path: op.p1.clone(), ino: ino(fd), trunc: false });
                } else if op.flags & 0o1000 != 0 {
                    log.push(L::Trunc { ino: ino(fd), len: 0 });
                }
            }
            K::Write => {
                let n = ret as usize;
                let off = pos(op.fd) - n as u64;
                log.push(L::Write { ino: ino(op.fd), off, data: op.data[..n].to_vec() });
            }
            K::Truncate => log.push(L::Trunc { ino: ino(op.fd), len: op.flags as u64 }),
            K::Rename => log.push(L::Rename(op.p1.clone(), op.p2.clone())),
            K::Link => log.push(L::Link(op.p1.clone(), op.p2.clone())),
            K::Unlink => log.push(L::Unlink(op.p1.clone())),
            K::Rmdir => log.push(L::Rmdir(op.p1.clone())),
            K::Mkdir => log.push(L::Mkdir(op.p1.clone())),
            K::Symlink => log.push(L::Symlink(op.p1.clone(), op.p2.clone())),
            _ => {}
        }
    }
}

#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Disk {
    pub dirs: BTreeSet<String>,
    pub files: BTreeMap<String, Vec<u8>>,
}

/// A tree of names over inodes, plus inode contents.
#[derive(Clone, Default)]
struct Names {
    dirs: BTreeSet<String>,
    files: BTreeMap<String, u64>,
}

impl Names {
    fn apply(&mut self, l: &L) {
        match l {
            L::Create { path, ino, .. } => {
                self.files.insert(path.clone(), *ino);
            }
            L::Mkdir(p) => {
                self.dirs.insert(p.clone());
            }
            L::Rename(a, b) => {
                if let Some(i) = self.files.remove(a) {
                    self.files.insert(b.clone(), i);
                } else {
                    let pre = format!("{a}/");
                    let mv = |s: &String| {
                        if s == a {
                            b.clone()
                        } else if let Some(r) = s.strip_prefix(&pre) {
                            format!("{b}/{r}")
                        } else {
                            s.clone()
                        }
                    };
                    self.dirs = self.dirs.iter().map(mv).collect();
                    self.files = self.files.iter().map(|(k, v)| (mv(k), *v)).collect();
                }
            }
            L::Link(a, b) => {
                if let Some(i) = self.files.get(a).copied() {
                    self.files.insert(b.clone(), i);
                }
            }
            L::Unlink(a) => {
                self.files.remove(a);
            }
            L::Rmdir(a) => {
                self.dirs.remove(a);
            }
            _ => {}
        }
    }
}

fn apply_data(cur: &mut Vec<u8>, l: &L) {
    match l {
        L::Write { off, data, .. } => {
            let end = *off as usize + data.len();
            if cur.len() < end {
                cur.resize(end, 0);
            }
            cur[*off as usize..end].copy_from_slice(data);
        }
        L::Trunc { len, .. } => cur.resize(*len as usize, 0),
        _ => {}
    }
}

fn data_ino(l: &L) -> Option<u64> {
    match l {
        L::Write { ino, .. } | L::Trunc { ino, .. } => Some(*ino),
        _ => None,
    }
}

/// Every disk a power failure at any point of this log can leave.
/// `base`: files already durable before the log began (path -> content), with their inodes.
pub fn disks(log: &[L], base_files: &[(String, u64, Vec<u8>)], base_dirs: &[String]) -> (BTreeSet<Disk>, u64) {
    let mut out = BTreeSet::new();
    let mut considered = 0u64;
    for c in 0..=log.len() {
        // data: per inode, the writes not covered by a later sync before c
        let mut synced_upto: BTreeMap<u64, usize> = BTreeMap::new();
        for (i, l) in log[..c].iter().enumerate() {
            if let L::Sync { ino } = l {
                synced_upto.insert(*ino, i);
            }
        }
        let metas: Vec<usize> = (0..c).filter(|i| log[*i].is_meta()).collect();
        // a cut in the sequence of directory operations; only cuts that end at c's last few
        // directory operations differ from those of a smaller c in data, so try them all
        for cut in 0..=metas.len() {
            let mut names = Names::default();
            for d in base_dirs {
                names.dirs.insert(d.clone());
            }
            for (p, i, _) in base_files {
                names.files.insert(p.clone(), *i);
            }
            for m in &metas[..cut] {
                names.apply(&log[*m]);
            }
            // variants per visible inode
            let inos: BTreeSet<u64> = names.files.values().copied().collect();
            let mut variants: Vec<(u64, Vec<Vec<u8>>)> = vec![];
            for ino in inos {
                let mut durable: Vec<u8> = base_files
                    .iter()
                    .find(|(_, i, _)| *i == ino)
                    .map(|x| x.2.clone())
                    .unwrap_or_default();
                let su = synced_upto.get(&ino).copied();
                let mut volatile = vec![];
                for (i, l) in log[..c].iter().enumerate() {
                    if data_ino(l) == Some(ino) {
                        if su.map(|s| i < s).unwrap_or(false) {
                            apply_data(&mut durable, l);
                        } else {
                            volatile.push(l);
                        }
                    }
                }
                let mut vs = BTreeSet::new();
                // any subset of the unsynced writes may be missing (their extent may remain)
                let k = volatile.len().min(6);
                for mask in 0..(1u32 << k) {
                    let mut d = durable.clone();
                    for (j, l) in volatile.iter().take(k).enumerate() {
                        if mask & (1 << j) != 0 {
                            apply_data(&mut d, l);
                        } else if let L::Write { off, data, .. } = l {
                            // size updated, data not: zeros
                            if mask & 1 == 0 && k > 1 {
                                let end = *off as usize + data.len();
                                let mut z = d.clone();
                                if z.len() < end {
                                    z.resize(end, 0);
                                }
                                vs.insert(z);
                            }
                        }
                    }
                    vs.insert(d);
                }
                variants.push((ino, vs.into_iter().collect()));
            }
            // product
            let mut idx = vec![0usize; variants.len()];
            loop {
                considered += 1;
                let mut content: BTreeMap<u64, &Vec<u8>> = BTreeMap::new();
                for (j, (ino, vs)) in variants.iter().enumerate() {
                    content.insert(*ino, &vs[idx[j]]);
                }
                let mut d = Disk { dirs: names.dirs.clone(), files: BTreeMap::new() };
                for (p, ino) in &names.files {
                    d.files.insert(p.clone(), content[ino].clone());
                }
                out.insert(d);
                let mut j = 0;
                while j < idx.len() {
                    idx[j] += 1;
                    if idx[j] < variants[j].1.len() {
                        break;
                    }
                    idx[j] = 0;
                    j += 1;
                }
                if j == idx.len() {
                    break;
                }
            }
        }
    }
    (out, considered)
}

impl Disk {
    /// Write this disk out with `from` replaced by `to` in every path.
    pub fn materialize(&self, from: &str, to: &str) {
        for d in &self.dirs {
            std::fs::create_dir_all(d.replacen(from, to, 1)).unwrap();
        }
        for (p, c) in &self.files {
            let p = p.replacen(from, to, 1);
            std::fs::create_dir_all(Path::new(&p).parent().unwrap()).unwrap();
            std::fs::write(p, c).unwrap();
        }
    }
}

/// Snapshot of a directory tree: (dirs, files with inode and content).
pub fn snapshot(root: &Path) -> (Vec<String>, Vec<(String, u64, Vec<u8>)>) {
    use std::os::unix::fs::MetadataExt;
    let mut dirs = vec![];
    let mut files = vec![];
    let mut stack = vec![root.to_path_buf()];
    while let Some(d) = stack.pop() {
        dirs.push(d.to_str().unwrap().to_string());
        for e in std::fs::read_dir(&d).unwrap() {
            let e = e.unwrap();
            let m = std::fs::symlink_metadata(e.path()).unwrap();
            if m.is_dir() {
                stack.push(e.path());
            } else if m.is_file() {
                files.push((
                    e.path().to_str().unwrap().to_string(),
                    m.ino(),
                    std::fs::read(e.path()).unwrap(),
                ));
            }
        }
    }
    (dirs, files)
}
