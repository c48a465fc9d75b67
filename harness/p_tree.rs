//! P09: unpacking stays inside its target. P10: unpacking is faithful.
use std::collections::BTreeMap;
use std::io::Cursor;
use std::path::{Path, PathBuf};

use serde_json::json;

use super::archive::{self, Confine, Node, T, Z};
use super::core::*;
use super::sys::with_env;
use crate::prelude::*;
use crate::trampolines::*;
use crate::tree::*;

pub fn boxed(b: Vec<u8>) -> Box<dyn ReadPlusSeek> {
    Box::new(Cursor::new(b))
}

pub fn wheel_name(s: &str) -> WheelName {
    ArtifactName::try_from(s).unwrap().inner_as::<WheelName>().unwrap().clone()
}
pub fn pybi_name(s: &str) -> PybiName {
    ArtifactName::try_from(s).unwrap().inner_as::<PybiName>().unwrap().clone()
}
pub fn sdist_name(s: &str) -> SdistName {
    ArtifactName::try_from(s).unwrap().inner_as::<SdistName>().unwrap().clone()
}

pub fn paths(v: &[(&str, &str)]) -> HashMap<String, NicePathBuf> {
    v.iter().map(|(k, v)| (k.to_string(), NicePathBuf::try_from(*v).unwrap())).collect()
}

/// A directory with something on every side of the target.
pub fn arena(dir: &Path) -> PathBuf {
    let out = dir.join("out");
    if !out.exists() {
        std::fs::create_dir_all(out.join("sub")).unwrap();
        std::fs::write(out.join("secret"), "secret").unwrap();
        std::fs::write(out.join("sub/secret"), "secret").unwrap();
    }
    let t = out.join("target");
    if t.exists() {
        std::fs::remove_dir_all(&t).unwrap();
    }
    std::fs::create_dir(&t).unwrap();
    t
}

fn surroundings(target: &Path) -> std::result::Result<(), String> {
    let mut names: Vec<String> = archive::tree(target.parent().unwrap()).into_iter().filter(|(k, _)| !k.starts_with("target/")).map(|(k, v)| format!("{k} {v:?}")).collect();
    names.sort();
    let want = format!("[\"secret {0:?}\", \"sub Dir\", \"sub/secret {0:?}\", \"target Dir\"]", Node::File(b"secret".to_vec(), false)).replace("\\", "");
    if format!("{names:?}").replace("\\", "") != want {
        return Err(format!("the surroundings of the target changed: {names:?}"));
    }
    Ok(())
}

/// Every link below the target leads to a place in it.
fn links_inside(target: &Path) -> std::result::Result<usize, String> {
    let c = Confine::new(&[target]);
    let real = std::fs::canonicalize(target).unwrap();
    let mut n = 0;
    for (name, node) in archive::tree(target) {
        if let Node::Link(to) = node {
            n += 1;
            let at = real.join(&name);
            let to_path = at.parent().unwrap().join(&to);
            let leads = c.leads_to(&to_path.to_string_lossy(), true);
            if Path::new(&to).is_absolute() || !leads.starts_with(&real) {
                return Err(format!("the link {name} -> {to} leads out of the target"));
            }
        }
    }
    Ok(n)
}

/// Unpack under the monitor; Err is a violation, Ok(accepted?).
fn contained(target: &Path, f: impl FnOnce() -> Result<()>) -> std::result::Result<bool, String> {
    let watch = Confine::new(&[target]);
    let r = with_env(&watch, || guard(f))?;
    if let Some(e) = watch.escapes.borrow().first() {
        return Err(format!("touched something outside the target: {e}"));
    }
    links_inside(target)?;
    surroundings(target)?;
    Ok(r.is_ok())
}

const NAMES: &[&str] = &[
    "a", "b", "a/b", "a/b/c", "x/y", // harmless
    "../x", "a/../../x", "a/b/../../../x", "..", "../target/x", "../sub/x", "../secret", // upwards
    "@/out/x", "/@/out/x", "/x", "//x", "/../x", // absolute
    "..\\x", "a\\..\\..\\x", "C:\\x", "C:x", "a:b", "\\\\host\\x", "a\\b", // not portable
    "", ".", "./a", "a//b", "a/..", "a/.", "a/../b", "./", "...", "a.", "a ", ".. /x", "a./b", "..a", "a\0b", "../x\0", "\nx", "a\u{7f}", "a*", "\u{ff}", "é", "~/x", "%2e%2e/x", "..\u{2044}x",
];

/// these must be accepted (alone) ...
const FINE: &[&str] = &["a", "b", "a/b", "a/b/c", "x/y", "./a", "a//b", "a/../b", "..a", "é", "~/x", "%2e%2e/x", "..\u{2044}x", "\u{ff}"];
/// ... and these must not
const BAD: &[&str] = &[
    "../x", "a/../../x", "a/b/../../../x", "..", "../target/x", "../sub/x", "../secret", "@/out/x", "/@/out/x", "/x", "//x", "/../x", "..\\x", "a\\..\\..\\x", "C:\\x", "C:x", "a:b", "\\\\host\\x", "a\\b", "...", "a.", "a ", ".. /x", "a./b", "a\0b", "../x\0", "\nx", "a\u{7f}", "a*",
];

const TARGETS: &[&str] = &[".", "..", "../..", "../../..", "a", "b", "a/..", "a/../..", "b/..", "b/../..", "b/c/../../..", "@/out", "/", "../sub", "../target", "../secret", "../target/../sub", "a/b", "../a", "../b", "", "..\\..", "a\0", "../x/../../sub", "./../.", "C:\\", "b/../../sub/secret", "c", "../c/..", "l/../.."];
const LINKS: &[&str] = &["a", "b", "l", "a/b", "a/l", "a/b/c", ".", "../l", "a/../l"];

fn dirs(s: &str, dir: &Path) -> String {
    s.replace("@", &dir.to_string_lossy())
}

fn zip_entries(dir: &Path) -> Vec<Z> {
    let mut v = vec![];
    for n in NAMES {
        let n = dirs(n, dir);
        v.push(Z::file(&n, "data"));
        if !n.ends_with('/') {
            v.push(Z::dir(&format!("{n}/")));
        }
    }
    v.push(Z { mode: None, ..Z::file("d", "") });
    v.push(Z { name: b"\xff\xfe".to_vec(), utf8: false, ..Z::file("", "x") });
    v.push(Z { name: b"../\xff".to_vec(), utf8: false, ..Z::file("", "x") });
    for l in LINKS {
        for t in TARGETS {
            v.push(Z::link(l, &dirs(t, dir)));
        }
    }
    v.push(Z { data: b"\xff/..".to_vec(), ..Z::link("l", "") });
    // other kinds of members
    for kind in [0o10000u32, 0o20000, 0o60000, 0o140000] {
        v.push(Z { mode: Some(kind | 0o644), ..Z::file("odd", "x") });
    }
    v.push(Z { mode: Some(0o120777), ..Z::file("a/", "..") });
    v
}

/// links, and files and directories that might go through them
fn chain_entries(dir: &Path, full: bool) -> Vec<Z> {
    let mut v = vec![];
    let links: &[&str] = if full { &["a", "b", "l", "a/b", "a/l"] } else { &["a", "b", "a/b"] };
    for l in links {
        for t in [".", "..", "../..", "a", "b", "l", "a/..", "b/..", "b/../..", "../sub", "../b", "a/b", "@/out"] {
            v.push(Z::link(l, &dirs(t, dir)));
        }
    }
    for f in ["a", "a/b", "a/x", "b/x", "a/b/x", "b/../x", "l/x", "b/sub/y", "a/../sub/y"] {
        v.push(Z::file(f, "data"));
    }
    for d in ["a/", "b/d/", "a/b/d/"] {
        v.push(Z::dir(d));
    }
    v
}

fn tar_entries(dir: &Path) -> Vec<Vec<T>> {
    let mut v: Vec<Vec<T>> = vec![];
    for n in NAMES {
        let n = dirs(n, dir);
        v.push(vec![T::file(&n, "data")]);
        v.push(vec![T::dir(&n)]);
        // the same name by other means
        v.push(vec![T::gnu_long(&n), T::file("short", "data")]);
        v.push(vec![T::pax(&[("path", &n)]), T::file("short", "data")]);
        if let Some((p, b)) = n.rsplit_once('/') {
            v.push(vec![T { prefix: p.into(), ..T::file(b, "data") }]);
        }
    }
    for n in ["a", "l", "a/b", "../l"] {
        for t in ["a", "..", "../sub", "../secret", "@/out/secret", "b/..", "."] {
            let t = dirs(t, dir);
            for k in [b'1', b'2'] {
                v.push(vec![T { link: t.clone().into(), ..T::new(n, k, "") }]);
                v.push(vec![T::pax(&[("linkpath", &t)]), T { link: b"a".to_vec(), ..T::new(n, k, "") }]);
                v.push(vec![T { magic: archive::GNU, kind: b'K', ..T::gnu_long(&t) }, T { link: b"a".to_vec(), ..T::new(n, k, "") }]);
            }
        }
    }
    for k in [b'3', b'4', b'6', b'7', 0u8, b'S', b'g', b'x', b'L', b'K', b'V', b'M', b'D', b'N', b'Z', b'8'] {
        for n in ["odd", "../odd", "a"] {
            v.push(vec![T::new(n, k, "x")]);
            v.push(vec![T { magic: archive::GNU, ..T::new(n, k, "x") }]);
        }
    }
    for m in [archive::GNU, archive::V7] {
        v.push(vec![T { magic: m, ..T::file("old", "x") }]);
        v.push(vec![T { magic: m, prefix: b"../up".to_vec(), ..T::file("old", "x") }]);
    }
    v
}

const DI: &str = "foo-1.0.dist-info";

pub fn wheel_base(root_is_purelib: bool) -> Vec<Z> {
    vec![
        Z::file(&format!("{DI}/WHEEL"), format!("Wheel-Version: 1.0\nRoot-Is-Purelib: {root_is_purelib}\nTag: py3-none-any\n")),
        Z::file(&format!("{DI}/METADATA"), "Metadata-Version: 2.1\nName: foo\nVersion: 1.0\n"),
    ]
}

pub fn unpack_wheel(z: &[Z], target: &Path, platform: ScriptPlatform, ps: &[(&str, &str)]) -> Result<()> {
    let w = Wheel::new(wheel_name("foo-1.0-py3-none-any.whl"), boxed(archive::zip(z)))?;
    w.unpack(&paths(ps), &TrampolineMaker::new(FindPython::FromEnv, platform), WriteTreeFS::new(target))
}

const PATHS: &[(&str, &str)] = &[("scripts", "bin"), ("purelib", "lib"), ("platlib", "lib"), ("data", ".")];

#[derive(Clone, Debug)]
enum C9 {
    /// zip archives that begin with this member, then every other
    Zip(usize),
    /// chains of three (four) that begin with this
    Chain(usize),
    Tar(usize),
    /// wheels with members below this prefix
    Wheel(usize),
    Paths(usize),
}

const PREFIX: &[&str] = &["", "foo-1.0.data/", "foo-1.0.data/scripts/", "foo-1.0.data/purelib/", "foo-1.0.data/platlib/x/", "foo-1.0.data/data/", "foo-1.0.data/headers/", "foo-1.0.data/../", "foo-1.0.data/..", "foo-1.0.dist-info/", "foo-1.0.dist-info/../", "Foo-1.0.data/data/"];

pub fn p09(mut ctx: Ctx) -> i32 {
    ctx.unprivileged = true;
    ctx.hang_secs = 600;
    let thorough = ctx.thorough();
    // (names with @ only stand in for the counts here)
    let dummy = Path::new("/x");
    let mut cases = vec![];
    for i in 0..chain_entries(dummy, thorough).len() {
        cases.push(C9::Chain(i));
    }
    for i in 0..zip_entries(dummy).len() {
        cases.push(C9::Zip(i));
    }
    for i in 0..tar_entries(dummy).len() {
        cases.push(C9::Tar(i));
    }
    for i in 0..PREFIX.len() {
        cases.push(C9::Wheel(i));
        cases.push(C9::Paths(i));
    }
    ctx.run_cases(&cases, |c| format!("{c:?}"), |case, rep, dir| {
        let key = format!("{case:?}");
        rep.states += 1;
        rep.case(&key, true);
        let mut one = |shown: &dyn Fn() -> String, expect: Option<bool>, f: &mut dyn FnMut(&Path) -> Result<()>, rep: &mut Rep| {
            if rep.violations.len() > 3 {
                return;
            }
            rep.transitions += 1;
            let target = arena(dir);
            match contained(&target, || f(&target)) {
                Err(m) => rep.violation(key.clone(), format!("{}: {m}", shown())),
                Ok(ok) => {
                    rep.outcome(if ok { "unpacked" } else { "refused" });
                    rep.traces += ok as u64;
                    if expect.map_or(false, |e| e != ok) {
                        rep.violation(key.clone(), format!("{} is {}", shown(), if ok { "accepted" } else { "refused" }));
                    }
                }
            }
        };
        let zip = |t: &Path, es: &[Z]| unpack_zip_carefully(&mut zip::ZipArchive::new(Cursor::new(archive::zip(es)))?, &mut WriteTreeFS::new(t));
        match case {
            C9::Zip(i) => {
                let all = zip_entries(dir);
                let first = &all[*i];
                let raw = String::from_utf8_lossy(&first.name).replace(&*dir.to_string_lossy(), "@");
                let raw = if first.mode == Some(0o40755) { raw.strip_suffix('/').unwrap().to_string() } else { raw };
                let expect = if first.mode == Some(0o120777) {
                    None
                } else if BAD.contains(&raw.as_str()) {
                    Some(false)
                } else if FINE.contains(&raw.as_str()) {
                    Some(true)
                } else {
                    None
                };
                one(&|| format!("zip with {first:?}"), expect, &mut |t| zip(t, std::slice::from_ref(first)), rep);
                for second in &all {
                    one(&|| format!("zip with {first:?}, {second:?}"), None, &mut |t| zip(t, &[first.clone(), second.clone()]), rep);
                }
                if *i == 0 {
                    rep.sample(json!({"zip": [format!("{first:?}"), format!("{:?}", all[9])]}));
                }
            }
            C9::Chain(i) => {
                let all = chain_entries(dir, thorough);
                let few: Vec<&Z> = all.iter().step_by(if thorough { 3 } else { 1 }).collect();
                for b in &all {
                    for c in &all {
                        one(&|| format!("zip with {:?}, {b:?}, {c:?}", all[*i]), None, &mut |t| zip(t, &[all[*i].clone(), b.clone(), c.clone()]), rep);
                        if thorough {
                            if b.mode != Some(0o120777) && c.mode != Some(0o120777) {
                                continue;
                            }
                            for d in &few {
                                one(&|| format!("zip with {:?}, {b:?}, {c:?}, {d:?}", all[*i]), None, &mut |t| zip(t, &[all[*i].clone(), b.clone(), c.clone(), (*d).clone()]), rep);
                            }
                        }
                    }
                }
            }
            C9::Tar(i) => {
                let all = tar_entries(dir);
                let unpack = |t: &Path, es: &[T]| unpack_tar_gz_carefully(Cursor::new(archive::gz(&archive::tar(es))), WriteTreeFS::new(t));
                let first = &all[*i];
                let expect = match first.as_slice() {
                    [e] if e.prefix.is_empty() && b"05".contains(&e.kind) && e.magic == archive::USTAR => {
                        let raw = String::from_utf8_lossy(&e.name).replace(&*dir.to_string_lossy(), "@");
                        // a name ends at its first NUL, here
                        if e.name.contains(&0) {
                            None
                        } else if BAD.contains(&raw.as_str()) {
                            Some(false)
                        } else {
                            FINE.contains(&raw.as_str()).then_some(true)
                        }
                    }
                    [e] if b"12346".contains(&e.kind) => Some(false),
                    _ => None,
                };
                one(&|| format!("tar with {first:?}"), expect, &mut |t| unpack(t, first), rep);
                let n = if thorough { 1 } else { 3 };
                for second in all.iter().skip(i % n).step_by(n) {
                    let both = [first.as_slice(), second.as_slice()].concat();
                    one(&|| format!("tar with {first:?}, {second:?}"), None, &mut |t| unpack(t, &both), rep);
                }
            }
            C9::Wheel(i) => {
                let mut members: Vec<Z> = vec![];
                for n in NAMES {
                    let n = format!("{}{}", PREFIX[*i], dirs(n, dir));
                    members.push(Z::file(&n, "data"));
                    members.push(Z::exe(&n, "#!python\ndata"));
                    members.push(Z::dir(&format!("{n}/")));
                }
                for t in TARGETS {
                    members.push(Z::link(&format!("{}l", PREFIX[*i]), &dirs(t, dir)));
                }
                let base = wheel_base(true);
                for m in &members {
                    let expect = (m.mode == Some(0o120777)).then_some(false);
                    one(&|| format!("wheel with {m:?}"), expect, &mut |t| unpack_wheel(&[&base[..], std::slice::from_ref(m)].concat(), t, ScriptPlatform::Both, PATHS), rep);
                    for (k, s) in members.iter().enumerate() {
                        if k % 4 == 0 || thorough {
                            one(&|| format!("wheel with {m:?}, {s:?}"), None, &mut |t| unpack_wheel(&[&base[..], &[m.clone(), s.clone()]].concat(), t, ScriptPlatform::Both, PATHS), rep);
                        }
                    }
                }
                // names of commands
                for n in NAMES {
                    let n = dirs(n, dir);
                    for k in ["console_scripts", "gui_scripts"] {
                        let m = Z::file(&format!("{DI}/entry_points.txt"), format!("[{k}]\n{}{n} = foo.bar:baz\n", if *i == 0 { "" } else { PREFIX[*i] }));
                        one(&|| format!("wheel with {m:?}"), None, &mut |t| unpack_wheel(&[&base[..], std::slice::from_ref(&m)].concat(), t, ScriptPlatform::Both, PATHS), rep);
                    }
                }
            }
            C9::Paths(i) => {
                // the directories an interpreter names for itself
                for n in NAMES.iter().chain(TARGETS) {
                    let n = format!("{}{}", ["", "a/", "./", "a/../", "../", "/", "@/", "a/b/../../", "x/.", "..//", "a\\", "c:"][*i], n);
                    let n = dirs(&n, dir);
                    let Ok(js) = serde_json::to_string(&n) else { continue };
                    let text = format!("Metadata-Version: 2.1\nName: cpython_unofficial\nVersion: 3.11\nPybi-Environment-Marker-Variables: {{}}\nPybi-Paths: {{\"data\": {js}, \"scripts\": \"bin\", \"purelib\": \"lib\"}}\n");
                    let m = Z::file("foo-1.0.data/data/inner", "data");
                    let mut zs = wheel_base(true);
                    zs.push(m);
                    one(&|| format!("a wheel unpacked where an interpreter has its data at {n:?}"), None, &mut |t| {
                        let md: PybiCoreMetadata = text.as_bytes().try_into()?;
                        let w = Wheel::new(wheel_name("foo-1.0-py3-none-any.whl"), boxed(archive::zip(&zs)))?;
                        w.unpack(&md.paths, &TrampolineMaker::new(FindPython::FromEnv, ScriptPlatform::Both), WriteTreeFS::new(t))
                    }, rep);
                }
            }
        }
    });
    finish(ctx, Level {
        level: "model_checking",
        rule: "every zip of up to two members over an alphabet of hostile and harmless names x kinds (files, directories, links to 30 targets, devices), every zip of three (thorough: four) members over links and what might go through them, every tar of up to two groups of headers (types, long names, extended attributes, prefixes, link names), every wheel with a hostile member below each of its special directories, hostile command names and hostile interpreter directories; unpacked by the real code, unprivileged, under a monitor that resolves every path a system call names through the real file system; afterwards all links and the surroundings are examined; states = first members, transitions = archives, traces = archives accepted",
        assumptions: &["names that Windows reserves (CON, NUL, ...) are left open, as in the code's own comment"],
    })
}

// ---------------------------------------------------------------------------------------------
// P10

/// A stream that gives out its bytes one at a time.
struct Trickle(Cursor<Vec<u8>>);
impl Read for Trickle {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(1);
        self.0.read(&mut buf[..n])
    }
}
impl Seek for Trickle {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.0.seek(p)
    }
}

#[derive(Clone, Debug, PartialEq)]
enum What {
    File(Vec<u8>, bool),
    Dir,
    Link(String),
}

/// One member, described once; put into archives of any kind.
#[derive(Clone, Debug)]
struct M {
    name: &'static str,
    what: What,
    mode: u32,
}

fn members() -> Vec<M> {
    let f = |name, data: &[u8], mode: u32| M { name, what: What::File(data.to_vec(), mode & 0o111 != 0), mode };
    let d = |name| M { name, what: What::Dir, mode: 0o755 };
    let l = |name, to: &str| M { name, what: What::Link(to.into()), mode: 0o777 };
    let long: &'static str = "d/long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long-long/x";
    vec![
        f("a", b"A", 0o644),
        f("a", b"other", 0o755),
        f("b", b"", 0o755),
        f("d/f", &[0, 10, 13, 255], 0o755),
        f("d/e/f", b"deep", 0o600),
        f("./d/g", b"G", 0o700),
        f("d//h", b"H", 0o444),
        f("d/../x y", b"space", 0o777),
        f("\u{e9}/.hid", b"\xc3\xa9", 0o644),
        f(long, b"L", 0o644),
        d("d"),
        d("d/e"),
        d("./d"),
        d("new"),
        d("."),
        d("a"),
        d("d/f"),
        l("l", "d/f"),
        l("d/l", "../a"),
        l("d", "b"),
        l("a/l", ".."),
    ]
}

fn normal(name: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for p in name.split('/') {
        match p {
            "" | "." => (),
            ".." => {
                v.pop();
            }
            x => v.push(x),
        }
    }
    v.join("/")
}

type Tree = BTreeMap<String, Node>;

/// Put something into an expected tree; false if it does not fit.
fn put(t: &mut Tree, path: &str, node: Node) -> bool {
    let path = normal(path);
    if path.is_empty() {
        return node == Node::Dir;
    }
    let mut at = 0;
    while let Some(i) = path[at..].find('/') {
        at += i;
        match t.get(&path[..at]) {
            None => {
                t.insert(path[..at].into(), Node::Dir);
            }
            Some(Node::Dir) => (),
            Some(_) => return false,
        }
        at += 1;
    }
    match (t.get(&path), &node) {
        (None, _) => {
            t.insert(path, node);
            true
        }
        (Some(Node::Dir), Node::Dir) => true,
        _ => false,
    }
}

fn expected(ms: &[&M]) -> Option<Tree> {
    let mut t = Tree::new();
    // links last: they may not stand for directories of other members
    for links in [false, true] {
        for m in ms {
            if matches!(m.what, What::Link(_)) == links {
                let node = match &m.what {
                    What::File(d, x) => Node::File(d.clone(), *x),
                    What::Dir => Node::Dir,
                    What::Link(to) => Node::Link(to.clone()),
                };
                if !put(&mut t, m.name, node) {
                    return None;
                }
            }
        }
    }
    Some(t)
}

fn as_zip(m: &M, deflate: bool) -> Z {
    Z {
        deflate,
        ..match &m.what {
            What::File(d, _) => Z { mode: Some(if deflate { m.mode } else { 0o100000 | m.mode }), ..Z::file(m.name, d) },
            What::Dir => Z::dir(&format!("{}/", m.name)),
            What::Link(to) => Z::link(m.name, to),
        }
    }
}

/// `style`: how the names and kinds are written down
fn as_tar(m: &M, style: usize) -> Vec<T> {
    let long = m.name.len() > 100;
    let base = match &m.what {
        What::File(d, _) => T { mode: m.mode, kind: [b'0', 0, b'7', b'0', b'0', b'0'][style], ..T::file(m.name, d) },
        What::Dir => T::dir(&if style % 2 == 0 { format!("{}/", m.name) } else { m.name.into() }),
        What::Link(_) => unreachable!(),
    };
    let full = String::from_utf8(base.name.clone()).unwrap();
    let cut = |t: T| T { name: "cut".into(), ..t };
    match style {
        3 => vec![T::gnu_long(&full), T { magic: archive::GNU, ..cut(base) }],
        4 => vec![T::pax(&[("mtime", "1.5"), ("path", &full)]), cut(base)],
        5 => vec![T { kind: b'g', ..T::pax(&[("comment", "x")]) }, T::pax(&[("path", &full), ("comment", "\u{e9}")]), cut(base)],
        _ if long => match full.trim_end_matches('/').rsplit_once('/') {
            Some((p, b)) => vec![T { prefix: p.into(), name: format!("{b}{}", if full.ends_with('/') { "/" } else { "" }).into(), ..base }],
            None => unreachable!(),
        },
        _ => vec![base],
    }
}

fn show_tree(t: &Tree) -> String {
    t.iter().map(|(k, v)| match v {
        Node::File(d, x) => format!("{k}{}={:?}", if *x { "*" } else { "" }, String::from_utf8_lossy(&d[..d.len().min(60)])),
        Node::Dir => format!("{k}/"),
        Node::Link(to) => format!("{k}->{to}"),
    }).collect::<Vec<_>>().join(" ")
}

/// What members of a wheel stand for
#[derive(Clone, Debug)]
struct W {
    name: &'static str,
    data: &'static str,
    exe: bool,
}

fn wheel_members() -> Vec<W> {
    let w = |name, data, exe| W { name, data, exe };
    vec![
        w("foo/__init__.py", "", false),
        w("foo/x.so", "\x7fELF", true),
        w("foo.py", "#!python\nnot a script", false),
        w("foo-1.0.dist-info/RECORD", "rec", false),
        w("foo-1.0.dist-info/entry_points.txt", "[console_scripts]\n[other]\nx = y1\n", false),
        w("foo-1.0.data/purelib/p.py", "P", false),
        w("foo-1.0.data/platlib/foo/q.so", "Q", true),
        w("foo-1.0.data/data/share/d", "D", false),
        w("foo-1.0.data/data/libexec/run", "R", true),
        w("foo-1.0.data/scripts/s1", "#!python\nprint('one')\n", false),
        w("foo-1.0.data/scripts/s2", "#!pythonw\nprint('two')\n", true),
        w("foo-1.0.data/scripts/sub/s3", "#!python3 -E\r\nprint('three')", false),
        w("foo-1.0.data/scripts/sh", "#!/bin/sh\necho hi\n", false),
        w("foo-1.0.data/scripts/tool", "\x7fELF", true),
        w("foo-1.0.data/scripts/empty", "", false),
        w("foo-1.0.data/scripts/py", "#!pytho", false),
        w("foo-1.0.data/bogus/x", "X", false),
        w("foo/", "", false),
        w("foo-1.0.dist-info/", "", false),
        w("foo-1.0.data/", "", false),
        w("foo-1.0.data/scripts/", "", false),
        w("foo-1.0.data/purelib/", "", false),
        w("foo-1.0.data/data/share/empty/", "", false),
    ]
}

const PATH_SETS: &[&[(&str, &str)]] = &[
    &[("scripts", "bin"), ("purelib", "lib/pure"), ("platlib", "lib/plat"), ("data", "."), ("include", "inc")],
    &[("scripts", "Scripts"), ("purelib", "lib/site"), ("platlib", "lib/site"), ("data", "data"), ("stdlib", "lib")],
];

/// The code a launcher runs, and whether it is a window program
fn launcher(script: &str) -> Option<(String, bool)> {
    let rest = script.strip_prefix("#!python")?;
    Some((rest.split_once('\n').map_or("", |x| x.1).to_string(), rest.starts_with('w')))
}

/// Check a launcher's shape without running it: ends in the code (or in a zip with it), and calls for the right interpreter.
fn judge_launcher(name: &str, got: &[u8], code: &str, gui: bool) -> std::result::Result<(), String> {
    if name.ends_with(".exe") {
        if !got.starts_with(b"MZ") {
            return Err(format!("{name} is not a Windows program"));
        }
        let mut z = zip::ZipArchive::new(Cursor::new(got)).map_err(|e| format!("{name}: {e}"))?;
        let mut text = vec![];
        z.by_name("__main__.py").map_err(|e| format!("{name}: {e}"))?.read_to_end(&mut text).map_err(|e| format!("{name}: {e}"))?;
        if text != code.as_bytes() {
            return Err(format!("{name} runs {:?} instead of {code:?}", String::from_utf8_lossy(&text)));
        }
        // console and window programs are told apart by the subsystem in their header
        let pe = u32::from_le_bytes(got[60..64].try_into().unwrap()) as usize;
        let subsystem = u16::from_le_bytes(got[pe + 24 + 68..pe + 24 + 70].try_into().unwrap());
        if (subsystem == 2) != gui {
            return Err(format!("{name} has subsystem {subsystem}"));
        }
        return Ok(());
    }
    if !got.starts_with(b"#!/bin/sh\n") {
        return Err(format!("{name} is not a launcher: {:?}", String::from_utf8_lossy(got)));
    }
    Ok(())
}

/// Run a launcher (or with python itself, if none given) in an almost empty environment.
pub fn run_it(path: &Path, python: Option<&str>, gui: bool, args: &[&str], dir: &Path) -> std::result::Result<(Vec<u8>, Vec<u8>, Option<i32>), String> {
    let real = "/usr/bin/python3";
    let mut c = match python {
        None => {
            let mut c = std::process::Command::new(real);
            c.arg(path);
            c
        }
        Some(_) => std::process::Command::new(path),
    };
    c.args(args).env_clear().env("PATH", "/usr/bin:/bin").env("PYTHONDONTWRITEBYTECODE", "1").current_dir(dir).stdin(std::process::Stdio::null());
    if let Some(p) = python {
        // only the one it should use is right
        c.env(if gui { "POSY_PYTHONW" } else { "POSY_PYTHON" }, p);
        c.env(if gui { "POSY_PYTHON" } else { "POSY_PYTHONW" }, "/bin/false");
    }
    let o = c.output().map_err(|e| format!("cannot start {path:?}: {e}"))?;
    Ok((o.stdout, o.stderr, o.status.code()))
}

fn judge_wheel(root_is_purelib: bool, ps: &[(&str, &str)], platform: ScriptPlatform, ms: &[&W], target: &Path, r: &std::result::Result<(), String>) -> std::result::Result<&'static str, String> {
    let at = |cat: &str| ps.iter().find(|(k, _)| *k == cat).map(|(_, v)| *v);
    let root = at(if root_is_purelib { "purelib" } else { "platlib" }).unwrap();
    let mut want = Tree::new();
    let mut scripts: Vec<(String, String, bool)> = vec![];
    let mut fits = true;
    let mut file = |want: &mut Tree, p: String, data: &[u8], exe: bool| fits &= put(want, &p, Node::File(data.to_vec(), exe));
    for z in wheel_base(root_is_purelib) {
        file(&mut want, format!("{root}/{}", String::from_utf8_lossy(&z.name)), &z.data, false);
    }
    file(&mut want, format!("{root}/{DI}/INSTALLER"), b"posy\n", false);
    let mut ok = true;
    for m in ms {
        let (cat, rest) = match m.name.strip_prefix("foo-1.0.data/") {
            None => ("", m.name),
            Some("") => continue,
            Some(r) => r.split_once('/').unwrap(),
        };
        let Some(base) = (if cat.is_empty() { Some(root) } else { at(cat) }) else {
            ok = false;
            continue;
        };
        let p = format!("{base}/{rest}");
        if rest.is_empty() || rest.ends_with('/') {
            fits_dir(&mut want, &p);
        } else if let (Some((code, gui)), "scripts") = (launcher(m.data), cat) {
            for suffix in match platform {
                ScriptPlatform::Unix => &[""][..],
                ScriptPlatform::Windows => &[".exe"],
                ScriptPlatform::Both => &["", ".exe"],
            } {
                file(&mut want, format!("{p}{suffix}"), b"launcher", true);
                scripts.push((normal(&format!("{p}{suffix}")), code.clone(), gui));
            }
        } else {
            file(&mut want, p, m.data.as_bytes(), m.exe || cat == "scripts");
        }
    }
    let ok = ok && fits;
    match (r, ok) {
        (Ok(()), false) => return Err("was accepted".into()),
        (Err(_), false) => return Ok("refused"),
        (Err(m), true) => return Err(format!("was refused: {m}")),
        (Ok(()), true) => (),
    }
    let mut got = archive::tree(target);
    for (name, code, gui) in scripts {
        match got.get_mut(&name) {
            Some(Node::File(d, _)) => {
                judge_launcher(&name, d, &code, gui)?;
                *d = b"launcher".to_vec();
            }
            x => return Err(format!("{name} is {x:?}")),
        }
    }
    if got != want {
        return Err(format!("gave\n    {}\n  instead of\n    {}", show_tree(&got), show_tree(&want)));
    }
    Ok("installed")
}

fn fits_dir(want: &mut Tree, p: &str) {
    put(want, p, Node::Dir);
}

/// Scripts with something that a launcher might spoil
const SCRIPTS: &[(&str, &[u8])] = &[
    ("plain", b"#!python\nimport sys\nprint(sys.argv[1:])\nsys.exit(7)\n"),
    ("no newline", b"#!python\nprint('x', end='')"),
    ("only a shebang", b"#!python"),
    ("only a shebang line", b"#!python\n"),
    ("crlf", b"#!python\r\nimport sys\r\nprint(sys.argv[1:])\r\n"),
    ("arguments", b"#!python -u -E\nprint('ok')\n"),
    ("python3", b"#!python3\nprint('ok')\n"),
    ("python3.11", b"#!python3.11\nprint('ok')\n"),
    ("utf-8", "#!python\nprint(ascii('\u{e9}\u{20ac}'))\n".as_bytes()),
    ("utf-8 named", "#!python\n# -*- coding: utf-8 -*-\nprint(ascii('\u{e9}\u{20ac}'))\n".as_bytes()),
    ("latin-1", b"#!python\n# -*- coding: latin-1 -*-\nprint(ascii('\xe9'))\n"),
    ("latin-1 vim", b"#!python\n# vim: set fileencoding=iso-8859-15 :\nprint(ascii('\xa4'))\n"),
    ("latin-1 crlf", b"#!python\r\n# coding: latin-1\r\nprint(ascii('\xe9'))\r\n"),
    ("cp1251 after nothing", b"#!python\n\n#coding:cp1251\nprint('ok')\n"),
    ("quotes", b"#!python\nprint('''a'''\n\"\"\"b\"\"\")\nprint(\"' '''\", ':')\n"),
    ("future", b"#!python\nfrom __future__ import annotations\ndef f(x: undefined): pass\nprint(f.__annotations__)\n"),
    ("comment, future", b"#!python\n# c\n\nfrom __future__ import annotations\nprint(1)\n"),
    ("docstring", b"#!python\n\"\"\"Usage: it\"\"\"\nprint(__doc__)\n"),
    ("docstring, future", b"#!python\n\"\"\"Usage: it\"\"\"\nfrom __future__ import annotations\nprint(1)\n"),
    ("no docstring", b"#!python\nprint(__doc__)\n"),
    ("name", b"#!python\nprint(__name__)\nif __name__ == '__main__':\n    print('main')\n"),
    ("backslash", b"#!python\nprint('a\\\nb', r'\\x')\n"),
    ("dollar", b"#!python\nprint('$HOME `id` $0')\n"),
    ("form feed", b"#!python\n\x0cprint('ok')\n"),
    ("traceback", b"#!python\nraise SystemExit('gone')\n"),
    ("stderr", b"#!python\nimport sys\nsys.stderr.write('e')\nsys.stdout.write('o')\n"),
    ("gui", b"#!pythonw\nprint('gui')\n"),
    ("gui arguments", b"#!pythonw -u\nprint('gui')\n"),
];

#[derive(Clone, Debug)]
enum C10 {
    Zip(usize),
    Pybi(usize),
    Tar(usize, usize),
    /// archives of the same files that begin with this one, written in other ways
    Packing(usize),
    Wheel { purelib: bool, paths: usize, platform: usize, first: usize },
    Script(&'static str),
    Sizes(usize),
    Naming(usize),
    Sparse,
}

const PLATFORMS: &[ScriptPlatform] = &[ScriptPlatform::Unix, ScriptPlatform::Both, ScriptPlatform::Windows];

/// dist-info (and data) directories for a wheel of foo-bar 1.0, and whether they'll do
const DIST_INFOS: &[(&[&str], Option<bool>)] = &[
    (&["foo_bar-1.0.dist-info"], Some(true)),
    (&["foo_bar-1.0.dist-info", "foo_bar-1.0.data"], Some(true)),
    (&["Foo_Bar-1.0.dist-info"], Some(true)),
    (&["foo-bar-1.0.dist-info"], Some(true)),
    (&["foo_bar-1.0.dist-info", "Foo-Bar-1.0.data"], Some(true)),
    (&["foo.bar-1.0.dist-info", "Foo_Bar-1.0.data"], Some(true)),
    (&["foo_bar-1.0.0.dist-info"], Some(true)),
    (&["foo_bar-1.00.dist-info", "foo_bar-1.0.0.data"], Some(true)),
    (&[], Some(false)),
    (&["foo_bar-1.0.data"], Some(false)),
    (&["foo_bar-1.0.dist-info", "Foo_Bar-1.0.dist-info"], Some(false)),
    (&["foo_bar-1.0.dist-info", "other-1.0.dist-info"], Some(false)),
    (&["foo_bar-1.0.dist-info", "foo_bar-1.0.data", "Foo_Bar-1.0.data"], Some(false)),
    (&["foo-1.0.dist-info"], Some(false)),
    (&["foo_bar-1.1.dist-info"], Some(false)),
    (&["foo_bar-1.0.post1.dist-info"], Some(false)),
    (&["foo_bar-1.0.dist-info", "foo_bar-1.1.data"], Some(false)),
    (&["foo_bar-1.0.dist-info", "bar-1.0.data"], Some(false)),
    (&["foo_bar.dist-info"], Some(false)),
    (&["1.0.dist-info"], Some(false)),
    (&["foo_bar-1.0.dist-info", "sub/foo_bar-1.0.dist-info"], Some(true)),
    (&["sub/foo_bar-1.0.dist-info"], Some(false)),
];

const WHEEL_FILES: &[(Option<&str>, Option<bool>)] = &[
    (Some("Wheel-Version: 1.0\nRoot-Is-Purelib: true\n"), Some(true)),
    (Some("Wheel-Version: 1.0\nGenerator: x\nRoot-Is-Purelib: false\nTag: py3-none-any\nBuild: 1\n"), Some(true)),
    (Some("Wheel-Version: 1.9\nRoot-Is-Purelib: true\n"), Some(true)),
    (Some("Wheel-Version: 1.10\nRoot-Is-Purelib: true\n"), Some(true)),
    (Some("Wheel-Version: 2.0\nRoot-Is-Purelib: true\n"), Some(false)),
    (Some("Wheel-Version: 10.0\nRoot-Is-Purelib: true\n"), Some(false)),
    (Some("Wheel-Version: 0.1\nRoot-Is-Purelib: true\n"), Some(false)),
    (Some("Root-Is-Purelib: true\n"), Some(false)),
    (Some("Wheel-Version: 1.0\n"), Some(false)),
    (Some("Wheel-Version: 1.0\nRoot-Is-Purelib: maybe\n"), Some(false)),
    (Some("Wheel-Version: 1.0\nRoot-Is-Purelib: true\nRoot-Is-Purelib: false\n"), Some(false)),
    (Some(""), Some(false)),
    (Some("nonsense"), Some(false)),
    (None, Some(false)),
];

const METADATAS: &[(Option<&str>, Option<bool>)] = &[
    (Some("Metadata-Version: 2.1\nName: foo-bar\nVersion: 1.0\n"), Some(true)),
    (Some("Metadata-Version: 2.1\nName: Foo.Bar\nVersion: 1.0.0\nRequires-Dist: a >= 1\n\nbody \u{e9}\n"), Some(true)),
    (Some("Metadata-Version: 2.1\nName: foo\nVersion: 1.0\n"), Some(false)),
    (Some("Metadata-Version: 2.1\nName: foo-bar\nVersion: 1.1\n"), Some(false)),
    (Some("Metadata-Version: 2.1\nName: foo-bar\n"), Some(false)),
    (Some("Metadata-Version: 2.1\nVersion: 1.0\n"), Some(false)),
    (Some("Metadata-Version: 3.0\nName: foo-bar\nVersion: 1.0\n"), Some(false)),
    (Some(""), Some(false)),
    (None, Some(false)),
];

const PYBI_FILES: &[(Option<&str>, Option<bool>)] = &[
    (Some("Pybi-Version: 1.0\nTag: x\n"), Some(true)),
    (Some("Pybi-Version: 1.2\n"), Some(true)),
    (Some("Pybi-Version: 2.0\n"), Some(false)),
    (Some("Pybi-Version: 11.0\n"), Some(false)),
    (Some("Generator: x\n"), Some(false)),
    (Some(""), Some(false)),
    (None, Some(false)),
];

pub fn p10(mut ctx: Ctx) -> i32 {
    ctx.unprivileged = true;
    ctx.hang_secs = 600;
    let thorough = ctx.thorough();
    let ms = members();
    let ws = wheel_members();
    let mut cases = vec![C10::Sparse];
    for i in 0..ms.len() {
        cases.push(C10::Zip(i));
        cases.push(C10::Pybi(i));
        for style in 0..6 {
            cases.push(C10::Tar(i, style));
        }
        cases.push(C10::Packing(i));
    }
    for first in 0..ws.len() {
        for purelib in [true, false] {
            for paths in 0..PATH_SETS.len() {
                for platform in 0..PLATFORMS.len() {
                    cases.push(C10::Wheel { purelib, paths, platform, first });
                }
            }
        }
    }
    for (s, _) in SCRIPTS {
        cases.push(C10::Script(s));
    }
    for i in 0..6 {
        cases.push(C10::Sizes(i));
    }
    for i in 0..DIST_INFOS.len() + WHEEL_FILES.len() + METADATAS.len() {
        cases.push(C10::Naming(i));
    }
    for i in 0..PYBI_FILES.len() + METADATAS.len() {
        cases.push(C10::Naming(1000 + i));
    }
    ctx.run_cases(&cases, |c| format!("{c:?}"), |case, rep, dir| {
        let key = format!("{case:?}");
        rep.states += 1;
        rep.case(&key, true);
        // one archive: unpack it by f, expect the tree (or a refusal)
        let mut one = |shown: &dyn Fn() -> String, want: Option<&Tree>, f: &mut dyn FnMut(&Path) -> Result<()>, rep: &mut Rep| {
            if rep.violations.len() > 3 {
                return;
            }
            rep.transitions += 1;
            let target = arena(dir);
            match (guard(|| f(&target)), want) {
                (Err(m), _) => rep.violation(key.clone(), format!("{}: {m}", shown())),
                (Ok(Err(e)), Some(_)) => rep.violation(key.clone(), format!("{} is refused: {e:#}", shown())),
                (Ok(Ok(())), None) => rep.violation(key.clone(), format!("{} is accepted", shown())),
                (Ok(Err(_)), None) => rep.outcome("refused"),
                (Ok(Ok(())), Some(want)) => {
                    rep.traces += 1;
                    let got = archive::tree(&target);
                    if got != *want {
                        rep.violation(key.clone(), format!("{} gave\n    {}\n  instead of\n    {}", shown(), show_tree(&got), show_tree(want)));
                    }
                    rep.outcome("unpacked");
                }
            }
        };
        match case {
            C10::Zip(i) => {
                let mut go = |l: &[&M], rep: &mut Rep| {
                    let want = expected(l);
                    for deflate in [false, true] {
                        let bytes = archive::zip(&l.iter().map(|m| as_zip(m, deflate)).collect::<Vec<_>>());
                        one(&|| format!("zip (deflated: {deflate}) with {l:?}"), want.as_ref(), &mut |t| Sdist::new(sdist_name("foo-1.0.zip"), boxed(bytes.clone()))?.unpack(&mut WriteTreeFS::new(t)), rep);
                    }
                };
                sequences(&ms, *i, if thorough { 4 } else { 3 }, &mut |l| go(l, rep));
            }
            C10::Pybi(i) => {
                let mut go = |l: &[&M], rep: &mut Rep| {
                    let want = expected(l);
                    let bytes = archive::zip(&l.iter().map(|m| as_zip(m, true)).collect::<Vec<_>>());
                    one(&|| format!("pybi with {l:?}"), want.as_ref(), &mut |t| Pybi::new(pybi_name("foo-1.0-any.pybi"), Box::new(Trickle(Cursor::new(bytes.clone()))))?.unpack(&mut WriteTreeFS::new(t)), rep);
                };
                sequences(&ms, *i, if thorough { 3 } else { 2 }, &mut |l| go(l, rep));
            }
            C10::Tar(i, style) => {
                if matches!(ms[*i].what, What::Link(_)) {
                    // links are not supported here
                    let What::Link(to) = &ms[*i].what else { unreachable!() };
                    for kind in [b'1', b'2'] {
                        for before in [true, false] {
                            let link = T { link: to.clone().into(), ..T::new(ms[*i].name, kind, "") };
                            let mut es = vec![link];
                            es.insert(before as usize, T::file("z", "Z"));
                            let bytes = archive::gz(&archive::tar(&es));
                            one(&|| format!("tar with {es:?}"), None, &mut |t| Sdist::new(sdist_name("foo-1.0.tar.gz"), boxed(bytes.clone()))?.unpack(&mut WriteTreeFS::new(t)), rep);
                        }
                    }
                    return;
                }
                let mut go = |l: &[&M], rep: &mut Rep| {
                    if l.iter().any(|m| matches!(m.what, What::Link(_))) {
                        return;
                    }
                    let want = expected(l);
                    let es: Vec<T> = l.iter().flat_map(|m| as_tar(m, *style)).collect();
                    let bytes = archive::gz(&archive::tar(&es));
                    one(&|| format!("tar (style {style}) with {l:?}"), want.as_ref(), &mut |t| {
                        let s = if style % 2 == 0 { boxed(bytes.clone()) } else { Box::new(Trickle(Cursor::new(bytes.clone()))) };
                        Sdist::new(sdist_name("foo-1.0.tar.gz"), s)?.unpack(&mut WriteTreeFS::new(t))
                    }, rep);
                };
                sequences(&ms, *i, if thorough { 4 } else { 3 }, &mut |l| go(l, rep));
            }
            C10::Packing(i) => {
                if matches!(ms[*i].what, What::Link(_)) {
                    return;
                }
                let mut packs = vec![archive::Pack::default()];
                for n in 1..64 {
                    let pick = |k: u32, v: &'static [u8]| if n >> k & 1 == 1 { v } else { b"" };
                    packs.push(archive::Pack {
                        descriptor: n & 1 != 0,
                        zip64: n & 2 != 0,
                        extra: pick(2, b"UT\x05\0\x01\0\0\0\x5f"),
                        comment: pick(3, b"a comment, PK\x01\x02"),
                        before: pick(4, b"#!/usr/bin/env python3\nPK"),
                        shuffled: n & 32 != 0,
                    });
                }
                sequences(&ms, *i, 2, &mut |l: &[&M]| {
                    let Some(want) = expected(l) else { return };
                    let zs: Vec<Z> = l.iter().map(|m| as_zip(m, true)).collect();
                    for pack in &packs {
                        // (what is written later replaces nothing)
                        for deflate in [false, true] {
                            let zs: Vec<Z> = zs.iter().map(|z| Z { deflate, ..z.clone() }).collect();
                            let bytes = archive::zip_as(&zs, pack);
                            one(&|| format!("zip ({pack:?}, deflate {deflate}) with {l:?}"), Some(&want), &mut |t| Sdist::new(sdist_name("foo-1.0.zip"), boxed(bytes.clone()))?.unpack(&mut WriteTreeFS::new(t)), rep);
                        }
                    }
                    if l.iter().any(|m| matches!(m.what, What::Link(_))) {
                        return;
                    }
                    let tar = archive::tar(&l.iter().flat_map(|m| as_tar(m, 0)).collect::<Vec<_>>());
                    let mut ways: Vec<(String, Vec<u8>)> = vec![];
                    for level in [0, 1, 6, 9] {
                        for labelled in [false, true] {
                            ways.push((format!("level {level}, labelled {labelled}"), archive::gz_like(&tar, level, labelled)));
                        }
                    }
                    let step = if l.len() == 1 { 128 } else { 512 };
                    for a in (0..=tar.len()).step_by(step) {
                        ways.push((format!("in parts cut at {a}"), archive::gz_parts(&tar, &[a])));
                        if l.len() == 1 {
                            for b in (a..=tar.len()).step_by(512) {
                                ways.push((format!("in parts cut at {a} and {b}"), archive::gz_parts(&tar, &[a, b])));
                            }
                        }
                    }
                    // the blocks of nothing at its end: as tar pads them
                    ways.push(("padded".into(), archive::gz(&[&tar[..], &vec![0; 10240 - tar.len() % 10240]].concat())));
                    for (way, bytes) in &ways {
                        one(&|| format!("tar.gz ({way}) with {l:?}"), Some(&want), &mut |t| Sdist::new(sdist_name("foo-1.0.tar.gz"), boxed(bytes.clone()))?.unpack(&mut WriteTreeFS::new(t)), rep);
                    }
                });
            }
            C10::Wheel { purelib, paths: ps, platform, first } => {
                // three members only in one configuration
                let depth = if thorough { 3 } else if *ps == 0 && *platform == 1 { 3 } else { 2 };
                let trickle = *platform == 0;
                let mut go = |l: &[&W], place: usize, rep: &mut Rep| {
                    if rep.violations.len() > 3 {
                        return;
                    }
                    rep.transitions += 1;
                    let mut zs: Vec<Z> = l.iter().map(|w| if w.name.ends_with('/') { Z::dir(w.name) } else if w.exe { Z::exe(w.name, w.data) } else { Z::file(w.name, w.data) }).collect();
                    let base = wheel_base(*purelib);
                    let at = [0, zs.len(), zs.len() / 2][place];
                    zs.splice(at..at, base);
                    let bytes = archive::zip(&zs);
                    let target = arena(dir);
                    let r = guard(|| {
                        let stream = if trickle { Box::new(Trickle(Cursor::new(bytes.clone()))) } else { boxed(bytes.clone()) };
                        let w = Wheel::new(wheel_name("foo-1.0-py3-none-any.whl"), stream).map_err(|e| format!("{e:#}"))?;
                        let (blob, _) = w.metadata().map_err(|e| format!("{e:#}"))?;
                        if blob != wheel_base(true)[1].data {
                            return Err("the metadata differs".into());
                        }
                        w.unpack(&paths(PATH_SETS[*ps]), &TrampolineMaker::new(FindPython::FromEnv, PLATFORMS[*platform]), WriteTreeFS::new(&target)).map_err(|e| format!("{e:#}"))
                    });
                    match r.map_err(|m| format!("panics: {m}")).and_then(|r| judge_wheel(*purelib, PATH_SETS[*ps], PLATFORMS[*platform], l, &target, &r)) {
                        Err(m) => rep.violation(key.clone(), format!("wheel with {:?} (own files at {place}) {m}", l)),
                        Ok(o) => {
                            rep.traces += (o == "installed") as u64;
                            rep.outcome(&format!("wheel {o}"));
                        }
                    }
                };
                sequences(&ws, *first, depth, &mut |l| {
                    for place in 0..if l.len() == 1 { 2 } else if l.len() == 2 { 3 } else { 1 } {
                        go(l, place, rep);
                    }
                });
                if *first == 0 {
                    rep.sample(json!({"case": key, "expected example": show_tree(&archive::tree(&dir.join("out/target")))}));
                }
            }
            C10::Script(name) => {
                let script = SCRIPTS.iter().find(|s| s.0 == *name).unwrap().1;
                let plain = dir.join("plain.py");
                let gui = script.starts_with(b"#!pythonw");
                std::fs::write(&plain, script).unwrap();
                for (n, args) in [&[][..], &["a b", "", "-x", "*", "'\"$HOME"]].iter().enumerate() {
                    let want = run_it(&plain, None, false, args, dir);
                    for deflate in [false, true] {
                        let mut zs = wheel_base(true);
                        zs.push(Z { deflate, ..Z::file("foo-1.0.data/scripts/run", script) });
                        let target = arena(dir);
                        rep.transitions += 1;
                        match guard(|| unpack_wheel(&zs, &target, ScriptPlatform::Both, PATHS)) {
                            Err(m) => rep.violation(key.clone(), format!("panics: {m}")),
                            Ok(Err(e)) => rep.violation(key.clone(), format!("a wheel with the script {:?} is refused: {e:#}", String::from_utf8_lossy(script))),
                            Ok(Ok(())) => {
                                // (error messages name the file)
                                let tidy = |r: std::result::Result<(Vec<u8>, Vec<u8>, Option<i32>), String>| r.map(|(o, e, c)| (String::from_utf8_lossy(&o).into_owned(), String::from_utf8_lossy(&e).lines().last().unwrap_or("").to_string(), c));
                                let want = tidy(want.clone());
                                let launched = tidy(run_it(&target.join("bin/run"), Some("/usr/bin/python3"), gui, args, dir));
                                let zipped = tidy(run_it(&target.join("bin/run.exe"), None, gui, args, dir));
                                rep.traces += 2;
                                rep.outcome("run");
                                for (what, got) in [("launcher", launched), ("Windows launcher's code", zipped)] {
                                    if got != want {
                                        rep.violation(key.clone(), format!("the script {:?} gives {want:?} by itself, but {got:?} by its {what} (arguments {n})", String::from_utf8_lossy(script)));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            C10::Sizes(i) => {
                // around the sizes of buffers
                for n in [0usize, 1, 7, 8, 9, 511, 512, 513, 8183, 8191, 8192, 8193, 32768, 65537, 200_000] {
                    let data: Vec<u8> = (0..n).map(|k| (k * 31 + k / 251) as u8).collect();
                    let mut want = Tree::new();
                    put(&mut want, "p/big", Node::File(data.clone(), false));
                    put(&mut want, "z", Node::File(b"Z".to_vec(), true));
                    let trickle = i % 2 == 1;
                    let stream = |b: &[u8]| -> Box<dyn ReadPlusSeek> { if trickle { Box::new(Trickle(Cursor::new(b.to_vec()))) } else { boxed(b.to_vec()) } };
                    match i / 2 {
                        0 => {
                            for deflate in [false, true] {
                                let b = archive::zip(&[Z { deflate, ..Z::file("p/big", &data) }, Z::exe("z", "Z")]);
                                one(&|| format!("zip with {n} bytes"), Some(&want), &mut |t| Sdist::new(sdist_name("foo-1.0.zip"), stream(&b))?.unpack(&mut WriteTreeFS::new(t)), rep);
                            }
                        }
                        1 => {
                            let b = archive::gz(&archive::tar(&[T::file("p/big", &data), T { mode: 0o755, ..T::file("z", "Z") }]));
                            one(&|| format!("tar with {n} bytes"), Some(&want), &mut |t| Sdist::new(sdist_name("foo-1.0.tar.gz"), stream(&b))?.unpack(&mut WriteTreeFS::new(t)), rep);
                        }
                        _ => {
                            for deflate in [false, true] {
                                for head in ["", "#!/bin/sh\n", "#!python\n"] {
                                    let body = [head.as_bytes(), &data].concat();
                                    let mut zs = wheel_base(true);
                                    zs.push(Z { deflate, ..Z::file("foo-1.0.data/scripts/big", &body) });
                                    let b = archive::zip(&zs);
                                    rep.transitions += 1;
                                    let target = arena(dir);
                                    let r = guard(|| Wheel::new(wheel_name("foo-1.0-py3-none-any.whl"), stream(&b))?.unpack(&paths(PATHS), &TrampolineMaker::new(FindPython::FromEnv, ScriptPlatform::Unix), WriteTreeFS::new(&target)));
                                    let got = std::fs::read(target.join("bin/big")).unwrap_or_default();
                                    let fine = matches!(r, Ok(Ok(()))) && if head == "#!python\n" { got.ends_with(&data) && got.starts_with(b"#!/bin/sh\n") } else { got == body };
                                    rep.outcome("script");
                                    if !fine {
                                        rep.violation(key.clone(), format!("a script of {n} bytes after {head:?} became {} bytes ({r:?})", got.len()));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            C10::Naming(i) if *i < 1000 => {
                let mut dirs: &[&str] = &["foo_bar-1.0.dist-info"];
                let mut wheel = WHEEL_FILES[0].0;
                let mut meta = METADATAS[0].0;
                let (a, b) = (DIST_INFOS.len(), DIST_INFOS.len() + WHEEL_FILES.len());
                let want = if *i < a {
                    dirs = DIST_INFOS[*i].0;
                    DIST_INFOS[*i].1
                } else if *i < b {
                    wheel = WHEEL_FILES[*i - a].0;
                    WHEEL_FILES[*i - a].1
                } else {
                    meta = METADATAS[*i - b].0;
                    METADATAS[*i - b].1
                };
                for extra in [&[][..], &[Z::file("foo_bar.py", "x")], &[Z::dir("a/"), Z::file("a/foo_bar-1.0.dist-info", "")]] {
                    let mut zs = extra.to_vec();
                    for d in dirs {
                        if d.ends_with(".data") {
                            zs.push(Z::file(&format!("{d}/data/x"), "DATA"));
                        } else {
                            zs.extend(wheel.map(|w| Z::file(&format!("{d}/WHEEL"), w)));
                            zs.extend(meta.map(|w| Z::file(&format!("{d}/METADATA"), w)));
                        }
                    }
                    for backwards in [false, true] {
                        if backwards {
                            zs.reverse();
                        }
                        rep.transitions += 1;
                        let bytes = archive::zip(&zs);
                        let target = arena(dir);
                        for only_metadata in [true, false] {
                            let r = guard(|| -> Result<()> {
                                let w = Wheel::new(wheel_name("foo_bar-1.0-py3-none-any.whl"), boxed(bytes.clone()))?;
                                if only_metadata {
                                    let (blob, md) = w.metadata()?;
                                    if Some(&blob[..]) != meta.map(|m| m.as_bytes()) {
                                        panic!("other metadata: {:?}", String::from_utf8_lossy(&blob));
                                    }
                                    let reqs = format!("{:?}", md.requires_dist.iter().map(|r| r.name.as_given().to_string()).collect::<Vec<_>>());
                                    if (reqs != "[]") != meta.unwrap().contains("Requires-Dist") {
                                        panic!("other requirements: {reqs}");
                                    }
                                    Ok(())
                                } else {
                                    w.unpack(&paths(PATHS), &TrampolineMaker::new(FindPython::FromEnv, ScriptPlatform::Both), WriteTreeFS::new(&target))
                                }
                            });
                            let shown = || format!("a wheel with {:?}", zs.iter().map(|z| (String::from_utf8_lossy(&z.name), String::from_utf8_lossy(&z.data))).collect::<Vec<_>>());
                            match (r, want) {
                                (Err(m), _) => rep.violation(key.clone(), format!("{}: {m}", shown())),
                                (Ok(Ok(())), Some(false)) => rep.violation(key.clone(), format!("{} is accepted", shown())),
                                (Ok(Err(e)), Some(true)) => rep.violation(key.clone(), format!("{} is refused: {e:#}", shown())),
                                (Ok(r), _) => rep.outcome(if r.is_ok() { "wheel accepted" } else { "wheel refused" }),
                            }
                        }
                        if want == Some(true) {
                            let di = dirs.iter().find(|d| d.ends_with(".dist-info")).unwrap();
                            let t = archive::tree(&target);
                            let has = |p: &str, d: &str| t.get(p) == Some(&Node::File(d.as_bytes().to_vec(), false));
                            if !has(&format!("lib/{di}/METADATA"), meta.unwrap()) || !has(&format!("lib/{di}/INSTALLER"), "posy\n") || has("x", "DATA") != dirs.iter().any(|d| d.ends_with(".data")) {
                                rep.violation(key.clone(), format!("a wheel with {dirs:?} gave {}", show_tree(&t)));
                            }
                        }
                    }
                }
            }
            C10::Naming(i) => {
                let i = i - 1000;
                let (pybi, meta, want) = if i < PYBI_FILES.len() {
                    (PYBI_FILES[i].0, METADATAS[0].0, PYBI_FILES[i].1)
                } else {
                    (PYBI_FILES[0].0, METADATAS[i - PYBI_FILES.len()].0, METADATAS[i - PYBI_FILES.len()].1)
                };
                let meta = meta.map(|m| {
                    let extra = "Pybi-Environment-Marker-Variables: {\"a\": \"b\"}\nPybi-Paths: {\"scripts\": \"bin\"}\n";
                    match m.split_once("\n\n") {
                        Some((a, b)) => format!("{a}\n{extra}\n{b}"),
                        None => format!("{m}{extra}"),
                    }
                });
                let mut zs = vec![];
                zs.extend(pybi.map(|w| Z::file("pybi-info/PYBI", w)));
                zs.extend(meta.as_ref().map(|w| Z::file("pybi-info/METADATA", w)));
                zs.push(Z::exe("bin/python", "P"));
                let bytes = archive::zip(&zs);
                rep.transitions += 1;
                let r = guard(|| Pybi::new(pybi_name("foo_bar-1.0-any.pybi"), boxed(bytes)).and_then(|p| p.metadata()));
                let shown = format!("a pybi with {pybi:?}, {meta:?}");
                match (r, want) {
                    (Err(m), _) => rep.violation(key.clone(), format!("{shown}: {m}")),
                    (Ok(Ok(_)), Some(false)) => rep.violation(key.clone(), format!("{shown} is accepted")),
                    (Ok(Err(e)), Some(true)) => rep.violation(key.clone(), format!("{shown} is refused: {e:#}")),
                    (Ok(Ok((blob, md))), _) => {
                        rep.outcome("pybi accepted");
                        if blob != meta.unwrap().as_bytes() || md.environment_marker_variables.get("a").map(|s| s.as_str()) != Some("b") || md.paths.get("scripts").map(|p| p.to_string()).as_deref() != Some("bin") {
                            rep.violation(key.clone(), format!("{shown} is read wrongly"));
                        }
                    }
                    _ => rep.outcome("pybi refused"),
                }
            }
            C10::Sparse => {
                // an old GNU sparse file: 512 bytes, a hole, 3 bytes
                let full: Vec<u8> = (0..512).map(|k| (k % 7) as u8).chain(*b"cde").collect();
                let mut t = T { kind: b'S', magic: archive::GNU, mode: 0o755, ..T::file("s", &full) };
                let mut sparse = vec![];
                let n = |v: usize| format!("{v:011o}\0").into_bytes();
                for v in [0, 512, 1024, 3] {
                    sparse.extend(n(v));
                }
                sparse.resize(96, 0);
                sparse.extend([0]);
                sparse.extend(n(1027));
                // these fields lie where the prefix would, after 41 other bytes
                let mut prefix = vec![0u8; 41];
                prefix.extend(sparse);
                t.prefix = prefix;
                let mut content = full[..512].to_vec();
                content.resize(1024, 0);
                content.extend(b"cde");
                let mut want = Tree::new();
                put(&mut want, "s", Node::File(content, true));
                put(&mut want, "z", Node::File(b"Z".to_vec(), false));
                let b = archive::gz(&archive::tar(&[t, T::file("z", "Z")]));
                one(&|| "a tar with a sparse file".into(), Some(&want), &mut |t| Sdist::new(sdist_name("foo-1.0.tar.gz"), boxed(b.clone()))?.unpack(&mut WriteTreeFS::new(t)), rep);
            }
        }
    });
    finish(ctx, Level {
        level: "model_checking",
        rule: "every sequence (with repetition) of up to three (thorough: four) members over an alphabet of files, modes, directory entries, spellings and links as zip (stored, deflated), tar.gz (six ways of writing headers) and pybi; every sequence of up to three members of a wheel's places x library kind x interpreter directories x launcher platform x position of the wheel's own files; all names and versions of the special directories and descriptions; sizes around buffer boundaries; scripts run by themselves and through their launchers; each unpacked by the real code and compared with a tree computed by hand; states = first members and configurations, transitions = archives, traces = archives unpacked and compared",
        assumptions: &["members of the headers category, and other spellings of true and false, are left open"],
    })
}

/// All sequences up to a length that begin with one element.
pub fn sequences<X>(all: &[X], first: usize, depth: usize, f: &mut dyn FnMut(&[&X])) {
    fn go<'a, X>(all: &'a [X], l: &mut Vec<&'a X>, depth: usize, f: &mut dyn FnMut(&[&X])) {
        f(l);
        if l.len() < depth {
            for x in all {
                l.push(x);
                go(all, l, depth, f);
                l.pop();
            }
        }
    }
    go(all, &mut vec![&all[first]], depth, f);
}
