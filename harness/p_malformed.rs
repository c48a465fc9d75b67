//! P24: malformed outside data.
use std::io::{Cursor, Read, Write};
use std::path::Path;

use serde_json::json;

use super::archive::{self, Confine};
use super::core::*;
use super::sys::with_env;
use crate::kvstore::{KVDirStore, KVFileStore};
use crate::prelude::*;
use crate::tree::{NicePathBuf, NiceSymlinkPaths, WriteTree};
use crate::vocab::parse_entry_points;

extern "C" {
    fn getrusage(who: i32, out: *mut [i64; 18]) -> i32;
}

/// CPU seconds of this process
fn cpu() -> f64 {
    let mut r = [0i64; 18];
    unsafe { getrusage(0, &mut r) };
    (r[0] + r[2]) as f64 + (r[1] + r[3]) as f64 / 1e6
}

pub struct Target {
    pub name: &'static str,
    run: fn(&[u8], &Path) -> &'static str,
    tokens: &'static [&'static str],
    seeds: &'static [&'static str],
    /// length of token sequences, quick and thorough
    depth: (usize, usize),
    /// how often a part may be repeated
    big: usize,
}

fn text<T>(b: &[u8], f: impl FnOnce(&str) -> std::result::Result<T, eyre::Report>) -> &'static str {
    match std::str::from_utf8(b) {
        Err(_) => "not text",
        Ok(s) => match f(s) {
            Ok(_) => "accepted",
            Err(e) => {
                // showing an error must work, too
                let _ = format!("{e:?} {e}");
                "refused"
            }
        },
    }
}

const ENVS: [(&str, &str); 11] = [
    ("os_name", "posix"), ("sys_platform", "linux"), ("platform_machine", "x86_64"), ("platform_python_implementation", "CPython"),
    ("platform_release", "5.1-x"), ("platform_system", "Linux"), ("platform_version", "#1 SMP"), ("python_version", "3.11"),
    ("python_full_version", "3.11.2"), ("implementation_name", "cpython"), ("implementation_version", "3.11.2"),
];

fn env() -> HashMap<String, String> {
    let mut m: HashMap<String, String> = ENVS.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    m.insert("extra".into(), "x".into());
    m
}

fn version(s: &str) -> Result<()> {
    let v: Version = s.try_into()?;
    let _ = (v.next(), v.next_public(), v.is_prerelease(), v.to_string(), v.cmp(&v.next()));
    let again: Version = v.to_string().as_str().try_into()?;
    let _ = again.cmp(&v);
    Ok(())
}

fn ranges(v: &Specifiers) -> usize {
    v.0.iter().map(|s| s.to_ranges().map_or(0, |r| format!("{r:?}").len())).sum()
}

fn specifiers(s: &str) -> Result<()> {
    let v: Specifiers = s.try_into()?;
    for x in ["1.0", "4294967295.4294967295", "0", "1!2.0a1.post2.dev3+l"] {
        let _ = v.satisfied_by(&x.try_into()?);
    }
    let _ = (v.to_string(), ranges(&v));
    Ok(())
}

fn requirement<R>(s: &str) -> Result<()>
where
    R: for<'a> TryFrom<&'a str, Error = eyre::Report> + std::ops::Deref<Target = Requirement>,
{
    let r: R = s.try_into()?;
    if let Some(m) = &r.env_marker_expr {
        let _ = (m.eval(&env()), m.eval(&HashMap::<String, String>::new()));
    }
    let _ = (r.to_string(), ranges(&r.specifiers));
    Ok(())
}

fn marker(s: &str) -> Result<()> {
    let r: StandaloneMarkerExpr = s.try_into()?;
    let _ = (r.0.eval(&env()), r.0.eval(&HashMap::<String, String>::new()), r.to_string());
    Ok(())
}

fn artifact(s: &str) -> Result<()> {
    let a: ArtifactName = s.try_into()?;
    let _ = (a.to_string(), a.distribution().normalized().len(), a.version().to_string());
    for n in a.split_multiplatform_pybis() {
        let _ = n.to_string();
    }
    if let Some(w) = a.inner_as::<WheelName>() {
        let n = w.all_tags().len();
        eyre::ensure!(n > 0, "no tag");
    }
    Ok(())
}

fn metadata_with(extra: &str) -> Result<PybiCoreMetadata> {
    format!("Metadata-Version: 2.1\nName: cpython\nVersion: 3.11\nPybi-Environment-Marker-Variables: {{}}\nPybi-Paths: {{}}\n{extra}").as_bytes().try_into()
}

fn platform(s: &str) -> Result<()> {
    // the core tag of a platform comes from the system posy runs on; everything else is outside data
    let p = PybiPlatform::new("manylinux_2_17_x86_64");
    let m = metadata_with("Pybi-Wheel-Tag: cp311-cp311-PLATFORM\nPybi-Wheel-Tag: py3-none-any\n")?;
    let w = p.wheel_platform(&m)?;
    let _ = (p.compatibility(s), w.compatibility(s), w.compatibility("cp311-cp311-win32"));
    // the same text as a tag in the interpreter's description
    if !s.contains(['\n', '\r']) {
        let m = metadata_with(&format!("Pybi-Wheel-Tag: {s}\n"))?;
        let w = p.wheel_platform(&m)?;
        let _ = w.compatibility(s);
    }
    Ok(())
}

fn metadata(b: &[u8]) -> &'static str {
    let w = WheelCoreMetadata::try_from(b).map(|_| ());
    let p = PybiCoreMetadata::try_from(b).and_then(|m| {
        let _ = PybiPlatform::new("manylinux_2_17_x86_64").wheel_platform(&m)?;
        let _ = (m.path("scripts"), m.path("x"));
        Ok(())
    });
    for e in [&w, &p] {
        let _ = format!("{e:?}");
    }
    match (w.is_ok(), p.is_ok()) {
        (false, false) => "refused",
        _ => "accepted",
    }
}

fn page(b: &[u8]) -> &'static str {
    let url = Url::parse("http://host/simple/foo/").unwrap();
    let mut n = 0;
    for ct in ["text/html", "text/html; charset=utf-8"] {
        match crate::package_db::verif::parse_html(&url, ct, Cursor::new(b.to_vec())) {
            Ok(p) => {
                n += p.artifacts.len();
                for a in &p.artifacts {
                    let _ = (a.require_hash().is_ok(), a.name.to_string());
                }
                let _ = crate::package_db::verif::pack_by_version(p, &mut Default::default());
            }
            Err(_) => return "refused",
        }
    }
    if n == 0 { "no artifact" } else { "accepted" }
}

fn content_type(s: &str) -> Result<()> {
    let url = Url::parse("http://host/simple/foo/").unwrap();
    let p = crate::package_db::verif::parse_html(&url, s, Cursor::new(b"<a href=foo-1.zip>x</a>".to_vec()))?;
    eyre::ensure!(p.artifacts.len() == 1, "lost the link");
    Ok(())
}

fn paths(s: &[u8]) -> &'static str {
    let mut ok = false;
    if let Ok(p) = NicePathBuf::try_from(s) {
        ok = true;
        let _ = (p.to_string(), p.to_native(), p.len());
        let _ = NiceSymlinkPaths::new(&p, b"../x");
    }
    for src in ["a", "a/b", "a/b/c", "."] {
        let src: NicePathBuf = src.try_into().unwrap();
        ok |= NiceSymlinkPaths::new(&src, s).is_ok();
    }
    if ok { "accepted" } else { "refused" }
}

fn special_dir(s: &str) -> Result<()> {
    for suffix in [".dist-info", ".data"] {
        let r = Wheel::find_special_wheel_dir([s, "x"], &"foo".try_into()?, &"1.0".try_into()?, suffix)?;
        eyre::ensure!(r.is_some(), "none");
    }
    Ok(())
}

/// A hash is also the name of an entry in the stores: use it in all of them, in a directory where
/// everything around the stores would be found out.
fn hash(s: &[u8], dir: &Path) -> &'static str {
    let Ok(s) = std::str::from_utf8(s) else { return "not text" };
    // absolute names must lead into the scratch directory
    let s = s.replace("@TMP@", &dir.to_string_lossy());
    let h: ArtifactHash = match s.as_str().try_into() {
        Ok(h) => h,
        Err(e) => {
            let _: eyre::Report = e;
            return "refused";
        }
    };
    let _ = h.to_string();
    if let Ok(mut c) = h.checker(vec![]) {
        c.write_all(b"data").unwrap();
        let _ = c.finish();
    }
    let f = dir.join("a/files");
    let d = dir.join("a/trees");
    std::fs::create_dir_all(&f).unwrap();
    std::fs::create_dir_all(&d).unwrap();
    let watch = Confine::new(&[&f, &d]);
    let out = with_env(&watch, || -> Result<()> {
        let fs = KVFileStore::new(&f)?;
        let ds = KVDirStore::new(&d)?;
        if fs.get(&h).is_some() {
            return Err(eyre!("PROBLEM: an entry is there already"));
        }
        if let Ok(l) = ds.lock(&h) {
            eyre::ensure!(!l.exists(), "PROBLEM: an entry is there already");
        }
        // other entries must not be disturbed
        let mut o = fs.get_or_set(&b"other"[..].to_vec().as_slice(), |w| Ok(w.write_all(b"other")?)).map_err(|e| e)?;
        let r1 = fs.get_or_set(&h, |w| Ok(w.write_all(b"mine")?));
        let r2 = ds.get_or_set(&h, |p| Ok(std::fs::write(p.join("x"), "mine")?));
        if let Ok(mut r) = r1 {
            let mut t = String::new();
            r.read_to_string(&mut t)?;
            eyre::ensure!(t == "mine", "PROBLEM: reads as {t:?}");
            let mut t = String::new();
            fs.get(&h).ok_or(eyre!("PROBLEM: stored but not found"))?.read_to_string(&mut t)?;
            eyre::ensure!(t == "mine", "PROBLEM: reads as {t:?} later");
        }
        if let Ok(p) = r2 {
            eyre::ensure!(std::fs::read_to_string(p.join("x"))? == "mine", "PROBLEM: the directory is not there");
        }
        let mut t = String::new();
        o.read_to_string(&mut t)?;
        eyre::ensure!(t == "other", "PROBLEM: another entry reads as {t:?}");
        Ok(())
    });
    let esc = watch.escapes.borrow().clone();
    std::fs::remove_dir_all(dir.join("a")).unwrap();
    if !esc.is_empty() {
        panic!("left the store: {esc:?}");
    }
    match out {
        Ok(()) => "accepted",
        Err(e) if e.to_string().starts_with("PROBLEM") => panic!("{e}"),
        Err(_) => "refused by the store",
    }
}

/// Files and directories as they would be, in memory.
#[derive(Default)]
pub struct MemTree(pub u64, pub u64);

impl WriteTree for MemTree {
    fn mkdir(&mut self, _: &NicePathBuf) -> Result<()> {
        self.0 += 1;
        Ok(())
    }
    fn write_file(&mut self, _: &NicePathBuf, data: &mut dyn Read, _: bool) -> Result<()> {
        self.0 += 1;
        self.1 += std::io::copy(data, &mut std::io::sink())?;
        Ok(())
    }
    fn write_symlink(&mut self, _: &NiceSymlinkPaths) -> Result<()> {
        self.0 += 1;
        Ok(())
    }
}

fn trampolines() -> crate::trampolines::TrampolineMaker {
    use crate::trampolines::*;
    TrampolineMaker::new(FindPython::FromEnv, ScriptPlatform::Both)
}

fn boxed(b: &[u8]) -> Box<dyn ReadPlusSeek> {
    Box::new(Cursor::new(b.to_vec()))
}

fn wheel(b: &[u8], _: &Path) -> &'static str {
    let r = (|| -> Result<()> {
        let name: ArtifactName = "foo-1.0-py3-none-any.whl".try_into()?;
        let w = Wheel::new(name.inner_as::<WheelName>().unwrap().clone(), boxed(b))?;
        let m = w.metadata();
        let paths: HashMap<String, NicePathBuf> = [("purelib", "lib"), ("platlib", "lib"), ("scripts", "bin"), ("data", ".")].into_iter().map(|(k, v)| (k.to_string(), v.try_into().unwrap())).collect();
        w.unpack(&paths, &trampolines(), MemTree::default())?;
        m?;
        Ok(())
    })();
    if r.is_ok() { "accepted" } else { "refused" }
}

fn pybi(b: &[u8], _: &Path) -> &'static str {
    let r = (|| -> Result<()> {
        let name: ArtifactName = "cpython_unofficial-3.11-manylinux_2_17_x86_64.pybi".try_into()?;
        let w = Pybi::new(name.inner_as::<PybiName>().unwrap().clone(), boxed(b))?;
        let m = w.metadata();
        w.unpack(&mut MemTree::default())?;
        m?;
        Ok(())
    })();
    if r.is_ok() { "accepted" } else { "refused" }
}

fn sdist(b: &[u8], _: &Path) -> &'static str {
    let mut ok = false;
    for name in ["foo-1.0.tar.gz", "foo-1.0.zip"] {
        let name: ArtifactName = name.try_into().unwrap();
        let r = Sdist::new(name.inner_as::<SdistName>().unwrap().clone(), boxed(b)).and_then(|s| s.unpack(&mut MemTree::default()));
        ok |= r.is_ok();
    }
    if ok { "accepted" } else { "refused" }
}

/// the tar inside, so that its own bytes are reached
fn tarball(b: &[u8], p: &Path) -> &'static str {
    sdist(&archive::gz(b), p)
}

macro_rules! t {
    ($f:expr) => {
        |b, _| text(b, $f)
    };
}

const TARGETS: &[Target] = &[
    Target { name: "version", run: t!(version), tokens: &["1", "0", ".", "!", "a", "rc", "post", "dev", "+", "-", "_", "v", " ", "\n", "\0", "é", "９", "4294967296"], seeds: &["1!2.3rc4.post5.dev6+l.7", "v1.0-1", "2023.1.1b2"], depth: (4, 5), big: 20000 },
    Target { name: "specifiers", run: t!(specifiers), tokens: &["1", ".0", "a1", ".*", ">=", "<=", "!=", "==", "===", "~=", ">", "<", ",", " ", "+l", ".dev0", "é", "(", ")", "!"], seeds: &[">=1.0,<2.0a1", "~=1.2.3, !=1.2.*", "==1!2.0.post1+x.1", "=== 4294967295.4294967295", ">4294967295.dev4294967295", "<=0"], depth: (4, 5), big: 5000 },
    Target { name: "package requirement", run: t!(requirement::<PackageRequirement>), tokens: &["a", "[", "]", ",", "(", ")", ">=", "1.0", ";", " ", "extra", "==", "'x'", "os_name", "and", "@", "http://x/", "é", "\n"], seeds: &["a-b.c[d,e_f] (>=1.0,<2) ; extra == 'z' and (os_name != \"x\" or python_version >= '3.8')", "foo~=1.2.3", "a @ https://h/p#sha256=00", "x===1.0; 'a' in platform_version"], depth: (4, 5), big: 2000 },
    Target { name: "user requirement", run: t!(requirement::<UserRequirement>), tokens: &["a", "[", "]", ";", " ", "sys_platform", "<", "\"", "'", "(", ")", "not in", "~=", "1.*"], seeds: &["a[b]>=1;sys_platform<'x' or 'linux' not in sys_platform"], depth: (4, 5), big: 2000 },
    Target { name: "python requirement", run: t!(requirement::<PythonRequirement>), tokens: &["cpython", " ", ">=", "3", ".", "8", "*", ",", "!="], seeds: &["cpython_unofficial>=3.8,!=3.9.*"], depth: (4, 5), big: 2000 },
    Target { name: "marker", run: t!(marker), tokens: &["os_name", "python_version", "extra", "'3.8'", "\"x\"", "''", "==", "<", "~=", "===", "in", "not in", "and", "or", "(", ")", " ", "'3.*'", "é"], seeds: &["python_version >= '3.8' and (os_name == 'posix' or 'x' in sys_platform)", "python_full_version ~= '3.9.0'", "'2.7' < python_version", "os_name === ''"], depth: (4, 5), big: 2000 },
    Target { name: "package name", run: t!(|s| -> Result<()> { let p: PackageName = s.try_into()?; let e: Result<Extra> = s.try_into(); let _ = (p.normalized().len(), p.as_given().len(), e.map(|e| e.normalized().len())); Ok(()) }), tokens: &["a", "Z", "0", "-", "_", ".", " ", "\n", "\0", "é", "İ", "/", "\\"], seeds: &["Foo-Bar_baz.9"], depth: (5, 6), big: 100000 },
    Target { name: "file name", run: t!(artifact), tokens: &["foo", "-", "1.0", "_", ".", "py3", "none", "any", "whl", ".tar.gz", ".zip", ".pybi", "macosx_11_0_universal2", "/", "..", "é", "1"], seeds: &["foo-1.0-py2.py3-none-any.whl", "foo-1.0-7b-cp311-abi3-manylinux2014_x86_64.manylinux_2_17_x86_64.whl", "foo-1.0.tar.gz", "foo_bar-1.0rc1.zip", "cpython-3.11.2-1-macosx_10_9_universal2.win_amd64.pybi"], depth: (5, 5), big: 3000 },
    Target { name: "platform tag", run: t!(platform), tokens: &["manylinux", "musllinux", "macosx", "linux", "win", "_", "2", "17", "2014", "1", "x86_64", "arm64", "universal2", "-", ".", "PLATFORM", "4294967295", "é", "any"], seeds: &["manylinux_2_17_x86_64", "manylinux2014_aarch64", "macosx_10_15_universal2", "macosx_12_0_arm64", "musllinux_1_2_x86_64", "win_amd64", "linux_armv7l"], depth: (4, 4), big: 20000 },
    Target { name: "metadata text", run: |b, _| metadata(b), tokens: &["Name", ":", " ", "foo\n", "\n", "\r", "Version: 1\n", "Metadata-Version: 2.1\n", "Requires-Dist: ", "x", "é", "\0", "\t"], seeds: &["Metadata-Version: 2.1\nName: foo\nVersion: 1.0\nRequires-Python: >=3\nRequires-Dist: x (>1) ; extra == 'y'\nProvides-Extra: y\nDescription: a\n  b\n\nbody\n", "Metadata-Version: 2.1\r\nName: cpython\r\nVersion: 3.11\r\nPybi-Environment-Marker-Variables: {\"os_name\": \"posix\"}\r\nPybi-Paths: {\"scripts\": \"bin\", \"data\": \".\"}\r\nPybi-Wheel-Tag: cp311-cp311-PLATFORM\r\nPybi-Wheel-Tag: py3-none-any\r\n"], depth: (4, 5), big: 3000 },
    Target { name: "entry points", run: t!(parse_entry_points), tokens: &["[", "]", "console_scripts", "\n", "\r", "=", " ", "a", ":", "b.c", "#", ";", "é", "\0"], seeds: &["[console_scripts]\nfoo = a.b:c.d [x,y]\n# c\n[gui_scripts]\nbar=m:f\n\n[x.y]\nz = w\n"], depth: (5, 5), big: 3000 },
    Target { name: "path", run: |b, _| paths(b), tokens: &["a", "/", ".", "..", "\\", ":", "\0", "\n", " ", "C:", "é", "//", "~"], seeds: &["a/b/../c/./d", "../../x/y"], depth: (5, 6), big: 20000 },
    Target { name: "wheel directory", run: t!(special_dir), tokens: &["foo", "-", "1.0", ".", "dist-info", ".dist-info", ".data", "/", "é", "_", ""], seeds: &["foo-1.0.dist-info", "foo-1.0.data"], depth: (5, 6), big: 20000 },
    Target { name: "index page", run: |b, _| page(b), tokens: &["<a href=\"", "foo-1.0.zip", "\">", "</a>", "#sha256=", "<base href='", "'", "/", "&", "&#", ";", "%2", "<!--", "http://", "<", ">", "é", "\0", "../", "<p>", "data-requires-python='", "9"], seeds: &["<!DOCTYPE html><html><head><base href=\"../x/\"><meta name=\"pypi:repository-version\" content=\"1.0\"></head><body><a href=\"https://h:80/foo-1.0%2B1.tar.gz?q#sha256=00ff\" data-yanked=\"&lt;\" data-requires-python=\"&gt;=3\" data-dist-info-metadata=\"sha256=aa\">x</a><table><tr><td><a href=foo-2.pybi></svg></body>", "<svg><a href='foo-1.zip'><math><a href=\"foo-2.zip\"><template><a href=foo-3.zip></template><select><a href=x>"], depth: (4, 4), big: 1500 },
    Target { name: "content type", run: t!(content_type), tokens: &["text/html", "text", "/", "application/vnd.pypi.simple.v1+html", ";", " ", "charset", "=", "utf-8", "\"", "latin1", "é", "json", "+", "x"], seeds: &["text/html; charset=utf-8", "application/vnd.pypi.simple.v1+html;q=1"], depth: (4, 5), big: 20000 },
    Target { name: "hash", run: hash, tokens: &["sha256", "=", "/", "..", "00", "a", "F", ".", "@TMP@/evil", "\\", "\0", "\n", "tmp", "é", "00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff", " "], seeds: &["sha256=00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff", "md5=d41d8cd98f00b204e9800998ecf8427e", "sha512=cf83e1357eefb8bdf1542850d66d8007d620e4050b5715dc83f4a921d36ce9ce47d0d13c5d85f2b0ff8318d2877eec2f63b931bd47417a81a538327af927da3e"], depth: (4, 5), big: 2000 },
];

const CHARS: &[&str] = &["0", "9", "a", "Z", ".", "-", "_", "+", "!", "=", "<", ">", "~", "*", "/", "\\", "(", "[", "]", ")", "\"", "'", ";", ":", ",", "&", "#", "%", "@", " ", "\t", "\n", "\r", "\0", "\u{7f}", "é", "\u{3000}", "\u{10ffff}", "{", "}"];

/// every way to change one place of `s`
fn edits(s: &[u8], f: &mut dyn FnMut(&[u8])) {
    let mut b = vec![];
    for i in 0..=s.len() {
        f(&s[..i]);
        f(&s[i..]);
        if i < s.len() {
            b.clear();
            b.extend(&s[..i]);
            b.extend(&s[i + 1..]);
            f(&b);
            // doubled, swapped, a bit turned
            b.insert(i, s[i]);
            b.insert(i, s[i]);
            f(&b);
            for bit in 0..8 {
                let mut c = s.to_vec();
                c[i] ^= 1 << bit;
                f(&c);
            }
            if i + 1 < s.len() {
                let mut c = s.to_vec();
                c.swap(i, i + 1);
                f(&c);
            }
        }
        for c in CHARS {
            b.clear();
            b.extend(&s[..i]);
            b.extend(c.as_bytes());
            b.extend(&s[i..]);
            f(&b);
            if i < s.len() {
                b.clear();
                b.extend(&s[..i]);
                b.extend(c.as_bytes());
                b.extend(&s[i + 1..]);
                f(&b);
            }
        }
    }
}

/// every part of `s` left out, repeated, alone, or (short texts) replaced by each of the tokens
fn parts(s: &[u8], tokens: &[&str], f: &mut dyn FnMut(&[u8])) {
    for i in 0..s.len() {
        for j in i + 1..=s.len() {
            f(&[&s[..i], &s[j..]].concat());
            f(&[&s[..j], &s[i..]].concat());
            f(&s[i..j]);
            if s.len() < 100 {
                for t in tokens {
                    f(&[&s[..i], t.as_bytes(), &s[j..]].concat());
                }
            }
        }
    }
}

/// every run of digits replaced by runs of other lengths
fn numbers(s: &[u8], f: &mut dyn FnMut(&[u8])) {
    let mut i = 0;
    while i < s.len() {
        if !s[i].is_ascii_digit() {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < s.len() && s[j].is_ascii_digit() {
            j += 1;
        }
        let mut put = |d: &str| f(&[&s[..i], d.as_bytes(), &s[j..]].concat());
        for n in 1..=40 {
            put(&"9".repeat(n));
            put(&"0".repeat(n));
            put(&format!("1{}", "0".repeat(n)));
        }
        for k in [7u32, 8, 15, 16, 31, 32, 53, 63, 64, 127, 128] {
            for d in [-2i32, -1, 0, 1] {
                // 2^k + d, in decimal
                let v = if k == 128 { u128::MAX } else { (1u128 << k) - 1 };
                put(&v.saturating_add_signed((d + 1) as i128).to_string());
            }
        }
        for n in [100, 1000, 20000] {
            put(&"7".repeat(n));
        }
        i = j;
    }
}

/// those that are read recursively
const HUGE: &[&str] = &["package requirement", "user requirement", "python requirement", "marker"];
const PAIRS: &[(&str, &str)] = &[("(", ")"), ("[", "]"), ("<b>", "</b>"), ("<table>", "</table>"), ("<svg>", "</svg>"), ("<a href=x>", "</a>"), ("<template>", "</template>"), ("<select>", "</select>"), ("<p>", ""), ("\"", "\""), ("( ", " and "), ("{\"a\":", "}"), ("[", "")];

#[derive(Clone)]
enum Case {
    /// sequences that begin with this token
    Seq(usize, usize),
    /// edits of this seed
    Edit(usize, usize),
    Numbers(usize, usize),
    /// parts of this seed, many times
    Many(usize, usize),
    Zip(usize, usize),
    Hashes,
    /// this seed with something repeated far more often than any stack is deep
    Huge(usize, usize),
}

fn zips() -> Vec<(&'static str, fn(&[u8], &Path) -> &'static str, Vec<u8>)> {
    use archive::{Z, T};
    let wheel_zip = archive::zip(&[
        Z::file("foo/__init__.py", "x"),
        Z::file("foo-1.0.data/scripts/run", "#!python\nx"),
        Z::file("foo-1.0.dist-info/WHEEL", "Wheel-Version: 1.0\nRoot-Is-Purelib: true\nTag: py3-none-any\n"),
        Z::file("foo-1.0.dist-info/METADATA", "Metadata-Version: 2.1\nName: foo\nVersion: 1.0\n"),
        Z::file("foo-1.0.dist-info/entry_points.txt", "[console_scripts]\nab = foo.bar:main\n"),
    ]);
    let pybi_zip = archive::zip(&[
        Z::exe("bin/python3", "#!/bin/sh\n"),
        Z::link("bin/python", "python3"),
        Z::dir("lib/"),
        Z::file("pybi-info/PYBI", "Pybi-Version: 1.0\n"),
        Z::file("pybi-info/METADATA", "Metadata-Version: 2.1\nName: cpython_unofficial\nVersion: 3.11\nPybi-Environment-Marker-Variables: {}\nPybi-Paths: {\"scripts\": \"bin\"}\nPybi-Wheel-Tag: py3-none-any\n"),
    ]);
    let tarball_ = archive::tar(&[T::dir("foo-1.0/"), T::gnu_long("foo-1.0/long"), T::file("x", "abc"), T::pax(&[("path", "foo-1.0/y"), ("size", "3")]), T::file("y", "abc")]);
    vec![
        ("wheel", wheel as fn(&[u8], &Path) -> &'static str, wheel_zip.clone()),
        ("interpreter", pybi, pybi_zip),
        ("zip sdist", sdist, wheel_zip),
        ("tar.gz sdist", sdist, archive::gz(&tarball_)),
        ("tar", tarball, tarball_),
    ]
}

pub fn p24(mut ctx: Ctx) -> i32 {
    ctx.hang_secs = ctx.pick(250, 1800);
    ctx.unprivileged = true;
    let thorough = ctx.thorough();
    let zips = zips();
    let mut cases = vec![];
    // the long ones first
    for i in 0..5 {
        for part in 0..8 {
            cases.push(Case::Zip(i, part));
        }
    }
    for t in 0..TARGETS.len() {
        for s in 0..TARGETS[t].seeds.len() {
            cases.push(Case::Many(t, s));
            if HUGE.contains(&TARGETS[t].name) {
                cases.push(Case::Huge(t, s));
            }
            cases.push(Case::Edit(t, s));
            cases.push(Case::Numbers(t, s));
        }
        for a in 0..TARGETS[t].tokens.len() {
            cases.push(Case::Seq(t, a));
        }
    }
    cases.push(Case::Hashes);
    let key = |c: &Case| match c {
        Case::Seq(t, a) => format!("{}: texts that begin with {:?}", TARGETS[*t].name, TARGETS[*t].tokens[*a]),
        Case::Edit(t, s) => format!("{}: edits of {:?}", TARGETS[*t].name, TARGETS[*t].seeds[*s]),
        Case::Numbers(t, s) => format!("{}: numbers in {:?}", TARGETS[*t].name, TARGETS[*t].seeds[*s]),
        Case::Many(t, s) => format!("{}: repetitions in {:?}", TARGETS[*t].name, TARGETS[*t].seeds[*s]),
        Case::Zip(i, p) => format!("damaged archives {i}.{p}"),
        Case::Huge(t, s) => format!("{}: huge repetitions in {:?}", TARGETS[*t].name, TARGETS[*t].seeds[*s]),
        Case::Hashes => "names of different hashes".into(),
    };
    ctx.run_cases(&cases, key, |case, rep, dir| {
        let key = key(case);
        rep.states += 1;
        rep.case(&key, true);
        let bad = std::cell::Cell::new(0);
        let began = cpu();
        let mut slow = 0.0f64;
        let mut one = |name: &str, run: fn(&[u8], &Path) -> &'static str, b: &[u8], limit: f64, rep: &mut Rep| {
            if bad.get() > 3 {
                return;
            }
            rep.transitions += 1;
            let t = if b.len() > 200 { Some(cpu()) } else { None };
            let shown = || {
                let s = String::from_utf8_lossy(b);
                if s.len() > 400 { format!("{:?}... ({} bytes)", s.chars().take(200).collect::<String>(), b.len()) } else { format!("{s:?}") }
            };
            match guard(|| run(b, dir)) {
                Ok(o) => {
                    rep.outcome(o);
                    if o == "accepted" {
                        rep.traces += 1;
                    }
                }
                Err(p) => {
                    bad.set(bad.get() + 1);
                    rep.violation(key.clone(), format!("{name}: {}: {p}", shown()));
                }
            }
            if let Some(t) = t {
                let t = cpu() - t;
                slow = slow.max(t);
                if t > limit {
                    bad.set(bad.get() + 1);
                    rep.violation(key.clone(), format!("{name}: {} takes {t:.1} s", shown()));
                }
            }
        };
        const LIMIT: f64 = 10.0;
        match case {
            Case::Seq(t, a) => {
                let t = &TARGETS[*t];
                let depth = if thorough { t.depth.1 } else { t.depth.0 };
                let mut idx = vec![];
                fn go(t: &Target, depth: usize, buf: &mut Vec<u8>, n: usize, f: &mut dyn FnMut(&[u8])) {
                    f(buf);
                    if n == depth {
                        return;
                    }
                    for x in t.tokens {
                        let l = buf.len();
                        buf.extend(x.as_bytes());
                        go(t, depth, buf, n + 1, f);
                        buf.truncate(l);
                    }
                }
                idx.extend(t.tokens[*a].as_bytes());
                go(t, depth, &mut idx, 1, &mut |b| one(t.name, t.run, b, LIMIT, rep));
                if *a == 0 {
                    one(t.name, t.run, b"", LIMIT, rep);
                }
            }
            Case::Edit(t, s) => {
                let t = &TARGETS[*t];
                let s = t.seeds[*s].as_bytes();
                rep.sample(json!({"parser": t.name, "every single edit of": t.seeds[0]}));
                edits(s, &mut |b| one(t.name, t.run, b, LIMIT, rep));
                parts(s, t.tokens, &mut |b| one(t.name, t.run, b, LIMIT, rep));
                // a second edit elsewhere
                if s.len() < 60 {
                    for i in 0..s.len() {
                        for c in CHARS {
                            let e = [&s[..i], c.as_bytes(), &s[i + 1..]].concat();
                            let from = i + c.len();
                            for j in from..e.len() {
                                let mut d = e.clone();
                                d.remove(j);
                                one(t.name, t.run, &d, LIMIT, rep);
                                for x in if thorough { CHARS } else { &CHARS[..12] } {
                                    let d = [&e[..j], x.as_bytes(), &e[j + 1..]].concat();
                                    if t.name != "hash" || d.contains(&b'=') {
                                        one(t.name, t.run, &d, LIMIT, rep);
                                    }
                                }
                            }
                        }
                    }
                }
            }
            Case::Numbers(t, s) => {
                let t = &TARGETS[*t];
                numbers(t.seeds[*s].as_bytes(), &mut |b| {
                    one(t.name, t.run, b, LIMIT, rep);
                    if b.len() < 120 && thorough {
                        numbers(b, &mut |b| one(t.name, t.run, b, LIMIT, rep));
                    }
                });
            }
            Case::Huge(t, s) => {
                let t = &TARGETS[*t];
                let s = t.seeds[*s].as_bytes();
                let phrases = ["os_name == 'a' and ", "os_name=='a' or(", " and os_name == 'a'", " or (os_name=='a'", "(os_name=='a' and ", "; ", "==1,", "[x],", "\n ", "{\"a\": "];
                for tok in t.tokens.iter().copied().chain(PAIRS.iter().map(|p| p.0)).chain(phrases) {
                    for n in [15_000, 60_000] {
                        let mut at = vec![0, s.len()];
                        // between its words
                        at.extend((1..s.len()).filter(|i| (s[i - 1] == b';' || s[i - 1] == b' ' || s[i - 1] == b'\n') && (*i < 60 || n > 20_000)));
                        for i in at {
                            one(t.name, t.run, &[&s[..i], tok.repeat(n).as_bytes(), &s[i..]].concat(), LIMIT, rep);
                        }
                    }
                }
            }
            Case::Many(t, s) => {
                let t = &TARGETS[*t];
                let s = t.seeds[*s].as_bytes();
                let big = if thorough { t.big * 2 } else { t.big };
                for n in [10, 100, big] {
                    // every token, at every place (long texts: every fifth)
                    let step = if s.len() > 80 { 7 } else { 1 };
                    for tok in t.tokens {
                        for i in (0..=s.len()).step_by(step) {
                            one(t.name, t.run, &[&s[..i], tok.repeat(n / tok.len().max(1)).as_bytes(), &s[i..]].concat(), LIMIT, rep);
                        }
                        one(t.name, t.run, tok.repeat(n).as_bytes(), LIMIT, rep);
                    }
                    // every part of the seed again and again
                    for i in (0..s.len()).step_by(step) {
                        for j in (i + 1..=s.len()).step_by(step) {
                            if n == big && (j - i) * 4 > s.len() && (i + j) % 3 != 0 {
                                continue;
                            }
                            one(t.name, t.run, &[&s[..i], s[i..j].repeat((n / (j - i)).max(2)).as_slice(), &s[j..]].concat(), LIMIT, rep);
                        }
                    }
                    for (a, b) in PAIRS {
                        for i in 0..=s.len().min(60) {
                            for j in [i, s.len()] {
                                one(t.name, t.run, &[&s[..i], a.repeat(n).as_bytes(), &s[i..j], b.repeat(n).as_bytes(), &s[j..]].concat(), LIMIT, rep);
                            }
                        }
                    }
                }
            }
            Case::Zip(i, part) => {
                let (name, run, b) = &zips[*i];
                assert_eq!(run(b, dir), "accepted", "harness: {name}");
                for at in (*part..b.len()).step_by(8) {
                    one(name, *run, &b[..at], LIMIT, rep);
                    one(name, *run, &b[at..], LIMIT, rep);
                    let vals: Vec<u8> = if thorough { (0..=255).collect() } else { (0..8).map(|k| b[at] ^ (1 << k)).chain([0, 0xff, 0x7f, 0x80, b'/', b'.', b'9']).collect() };
                    for v in vals {
                        let mut c = b.clone();
                        c[at] = v;
                        one(name, *run, &c, LIMIT, rep);
                    }
                    // extremes in wider fields
                    for w in [2usize, 4, 8] {
                        if at + w <= b.len() {
                            for v in [0u8, 0xff, 0x7f] {
                                let mut c = b.clone();
                                c[at..at + w].fill(v);
                                one(name, *run, &c, LIMIT, rep);
                            }
                        }
                    }
                    let mut c = b.clone();
                    c.remove(at);
                    one(name, *run, &c, LIMIT, rep);
                    c.insert(at, 0xff);
                    c.insert(at, 0);
                    one(name, *run, &c, LIMIT, rep);
                }
            }
            Case::Hashes => {
                // different hashes never share a place in a store
                use crate::kvstore::PathKey;
                let mut seen: HashMap<std::path::PathBuf, String> = HashMap::new();
                let data: Vec<String> = [16usize, 20, 28, 32, 48, 64].into_iter().flat_map(|n| (0..8).map(move |k| [&"00".repeat(n - 1)[..], ["00", "01", "02", "03", "04", "10", "80", "ff"][k]].concat()).collect::<Vec<_>>()).collect();
                for mode in ["sha256", "sha512", "md5", "sha1", "SHA256", "sha384", "blake2b", "sha3_256"] {
                    for d in &data {
                        for d in [d.clone(), d.chars().rev().collect()] {
                            let t = format!("{mode}={d}");
                            rep.transitions += 1;
                            let Ok(h) = ArtifactHash::try_from(t.as_str()) else { continue };
                            rep.traces += 1;
                            if let Some(o) = seen.insert(h.key(), h.to_string()) {
                                if o != h.to_string() {
                                    rep.violation(key.clone(), format!("{t} and {o} share a place"));
                                }
                            }
                        }
                    }
                }
            }
        }
        if cpu() - began > 15.0 {
            rep.notes.insert(format!("{key}: {:.0} s", cpu() - began));
        }
        if slow > 1.0 {
            rep.notes.insert(format!("{key}: up to {slow:.1} s for one text"));
        }
    });
    finish(ctx, Level {
        level: "model_checking",
        rule: "for every parser of outside data: every sequence of up to the bound of tokens of its grammar, every single edit (and pairs of edits of short ones) of valid texts, every part of them left out, repeated, alone, or replaced by each token, every number in them replaced by 40 lengths and the limits of machine words, every part repeated up to thousands of times and nested; every damaged byte, field and truncation of each kind of archive; hashes used as keys in both stores under a monitor that refuses and reports any file operation outside them (run without privileges); states = cases, transitions = inputs, traces = inputs accepted",
        assumptions: &["an input of some thousand characters may take up to 10 s of processor time", "archives are unpacked into memory here; unpacking onto a file system is P09"],
    })
}
