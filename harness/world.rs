//! A package index made up by the harness: projects, releases, files; served over HTTP.
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::{Arc, Mutex};

use super::archive::{self, Z};
use super::origin::*;
use crate::env::EnvForest;
use crate::kvstore::KVDirStore;
use crate::package_db::PackageDB;
use crate::prelude::*;

#[derive(Clone, Debug, Default)]
pub struct Served {
    pub name: String,
    pub bytes: Arc<Vec<u8>>,
    /// sha256 in the index; none: not listed
    pub hash: Option<String>,
    pub requires_python: Option<String>,
    pub yanked: Option<String>,
}

pub fn sha256(b: &[u8]) -> String {
    ring::digest::digest(&ring::digest::SHA256, b).as_ref().iter().map(|x| format!("{x:02x}")).collect()
}

impl Served {
    pub fn new(name: &str, bytes: Vec<u8>) -> Served {
        let hash = Some(sha256(&bytes));
        Served { name: name.into(), bytes: Arc::new(bytes), hash, ..Default::default() }
    }
}

#[derive(Default)]
pub struct Pages {
    /// project -> files, in the order of the page
    pub projects: BTreeMap<String, Vec<Served>>,
    pub files: BTreeMap<String, Arc<Vec<u8>>>,
    /// indexes that stay, by number
    pub kept: BTreeMap<String, BTreeMap<String, Vec<Served>>>,
}

pub struct World {
    pub origin: Origin,
    pub pages: Arc<Mutex<Pages>>,
    n: std::cell::Cell<u64>,
}

pub fn bytes_answer(req: &Req, body: &[u8]) -> Resp {
    let n = body.len();
    if let Some(r) = req.header("range").and_then(|r| r.strip_prefix("bytes=")) {
        if let Some((a, b)) = r.split_once('-') {
            let (a, b) = match (a.parse::<usize>(), b.parse::<usize>()) {
                (Ok(a), Ok(b)) => (a, b.min(n - 1)),
                (Ok(a), Err(_)) => (a, n - 1),
                (Err(_), Ok(k)) => (n.saturating_sub(k), n - 1),
                _ => (0, n - 1),
            };
            if a < n {
                return Resp::new(206, &body[a..=b]).h("Content-Range", format!("bytes {a}-{b}/{n}")).h("Accept-Ranges", "bytes");
            }
            return Resp::new(416, "").h("Content-Range", format!("bytes */{n}"));
        }
    }
    Resp::new(200, body).h("Accept-Ranges", "bytes")
}

fn escape(s: &str) -> String {
    s.replace('&', "&amp;").replace('"', "&quot;").replace('<', "&lt;").replace('>', "&gt;")
}

impl World {
    pub fn start() -> World {
        let origin = Origin::start();
        let pages: Arc<Mutex<Pages>> = Default::default();
        let p = pages.clone();
        origin.set(move |req| {
            let p = p.lock().unwrap();
            let parts: Vec<&str> = req.path.split('/').collect();
            // /index/<n>/<project>/ or /file/<hash>/<name>
            match parts.as_slice() {
                ["", "index", n, project, ""] => match p.kept.get(*n).unwrap_or(&p.projects).get(*project) {
                    None => Resp::new(404, "none").h("Cache-Control", "no-store"),
                    Some(files) => {
                        let mut html = String::from("<!DOCTYPE html><html><body>\n");
                        for f in files {
                            let key = sha2_short(&f.bytes);
                            html += &format!("<a href=\"/file/{key}/{}{}\"{}{}>x</a>\n", f.name.replace('+', "%2B"), f.hash.as_ref().map_or(String::new(), |h| format!("#sha256={h}")), f.requires_python.as_ref().map_or(String::new(), |r| format!(" data-requires-python=\"{}\"", escape(r))), f.yanked.as_ref().map_or(String::new(), |r| format!(" data-yanked=\"{}\"", escape(r))));
                        }
                        Resp::new(200, html).h("Content-Type", "text/html").h("Cache-Control", "no-store")
                    }
                },
                ["", "file", key, _] => match p.files.get(*key) {
                    Some(b) => bytes_answer(req, b).h("Cache-Control", "max-age=100000"),
                    None => Resp::new(404, "no such file"),
                },
                _ => Resp::new(404, "what?"),
            }
        });
        World { origin, pages, n: Default::default() }
    }

    /// One that stays, whatever comes later
    pub fn keep(&self, projects: BTreeMap<String, Vec<Served>>) -> Url {
        let url = self.set(projects.clone());
        self.pages.lock().unwrap().kept.insert(self.n.get().to_string(), projects);
        url
    }

    /// Make these the index's contents, at a new address.
    pub fn set(&self, projects: BTreeMap<String, Vec<Served>>) -> Url {
        let mut p = self.pages.lock().unwrap();
        for f in projects.values().flatten() {
            let key = sha2_short(&f.bytes);
            if !p.files.contains_key(&key) {
                p.files.insert(key, f.bytes.clone());
            }
        }
        p.projects = projects;
        self.n.set(self.n.get() + 1);
        Url::parse(&self.origin.url(&format!("/index/{}/", self.n.get()))).unwrap()
    }
}

thread_local! {
    static KEYS: std::cell::RefCell<std::collections::HashMap<usize, (std::sync::Weak<Vec<u8>>, String)>> = Default::default();
}

/// An address for contents
fn sha2_short(b: &Arc<Vec<u8>>) -> String {
    let at = Arc::as_ptr(b) as usize;
    KEYS.with(|k| {
        let mut k = k.borrow_mut();
        if let Some((w, s)) = k.get(&at) {
            if w.upgrade().map_or(false, |x| Arc::ptr_eq(&x, b)) {
                return s.clone();
            }
        }
        let s = sha256(b)[..20].to_string();
        k.insert(at, (Arc::downgrade(b), s.clone()));
        s
    })
}

/// What posy needs besides an index
pub struct Home {
    pub forest: EnvForest,
    pub build_store: KVDirStore,
    pub cache: std::path::PathBuf,
    uses: std::cell::Cell<usize>,
}

impl Home {
    pub fn new(dir: &Path) -> Home {
        Home {
            forest: EnvForest::new(&dir.join("forest")).unwrap(),
            build_store: KVDirStore::new(&dir.join("build")).unwrap(),
            cache: dir.join("cache"),
            uses: Default::default(),
        }
    }
    /// every world's page has its own url, so the http cache only grows
    pub fn tidy(&self) {
        self.uses.set(self.uses.get() + 1);
        if self.uses.get() % 1000 == 0 {
            let _ = std::fs::remove_dir_all(self.cache.join("http"));
        }
    }
    pub fn db(&self, urls: &[Url]) -> Result<PackageDB> {
        PackageDB::new(urls, &self.cache, &self.forest, &self.build_store)
    }
}

pub fn wheel_bytes(name: &str, version: &str, metadata: &str, more: &[Z]) -> Vec<u8> {
    let di = format!("{}-{version}.dist-info", name.replace('-', "_"));
    let mut zs = vec![
        Z::file(&format!("{di}/WHEEL"), "Wheel-Version: 1.0\nRoot-Is-Purelib: true\n"),
        Z::file(&format!("{di}/METADATA"), format!("Metadata-Version: 2.1\nName: {name}\nVersion: {version}\n{metadata}")),
    ];
    zs.extend(more.iter().cloned());
    archive::zip(&zs)
}

pub const MARKERS: &str = r##"{"implementation_name": "cpython", "implementation_version": "@", "os_name": "posix", "platform_machine": "x86_64", "platform_python_implementation": "CPython", "platform_system": "Linux", "python_full_version": "@", "python_version": "#", "sys_platform": "linux"}"##;

pub fn pybi_bytes(name: &str, version: &str, python: &str, wheel_tags: &[&str], more: &[Z]) -> Vec<u8> {
    pybi_machine(name, version, python, Some("x86_64"), wheel_tags, more)
}

/// One with this platform_machine, or none
pub fn pybi_machine(name: &str, version: &str, python: &str, machine: Option<&str>, wheel_tags: &[&str], more: &[Z]) -> Vec<u8> {
    let minor: Vec<&str> = python.split('.').take(2).collect();
    let mut markers = MARKERS.replace('@', python).replace('#', &minor.join("."));
    let old = "\"platform_machine\": \"x86_64\", ";
    assert!(markers.contains(old));
    markers = markers.replace(old, &machine.map_or(String::new(), |m| format!("\"platform_machine\": \"{m}\", ")));
    let tags: String = wheel_tags.iter().map(|t| format!("Pybi-Wheel-Tag: {t}\n")).collect();
    let mut zs = vec![
        Z::file("pybi-info/PYBI", "Pybi-Version: 1.0\nGenerator: harness\nTag: x\n"),
        Z::file("pybi-info/METADATA", format!("Metadata-Version: 2.1\nName: {name}\nVersion: {version}\nPybi-Environment-Marker-Variables: {markers}\nPybi-Paths: {{\"stdlib\": \"lib/std\", \"purelib\": \"lib/site\", \"platlib\": \"lib/site\", \"scripts\": \"bin\", \"data\": \".\", \"include\": \"inc\"}}\n{tags}")),
    ];
    zs.extend(more.iter().cloned());
    archive::zip(&zs)
}

// ---------------------------------------------------------------- building from source

/// An interpreter archive whose python is the system's, started with posy's site-packages
pub fn working_python(python: &str, wheel_tags: &[&str]) -> Vec<u8> {
    pybi_bytes("cpython", python, python, wheel_tags, &[
        Z::file("lib/std/site.py", "ENABLE_USER_SITE = None\n"),
        Z::dir("lib/site/"),
        // what the build frontend imports and newer pythons don't have
        Z::file("stubs/distutils/__init__.py", ""),
        // the system's packages aren't the interpreter's
        Z::file("stubs/distutils/sysconfig.py", "import os, sys\nsys.path[:] = [p for p in sys.path if not p.endswith('dist-packages')]\nif 'HARNESS_DIE' in os.environ:\n    import harness_crash\n    harness_crash.install()\n"),
        Z::file("stubs/harness_crash.py", CRASH_PY),
        Z::exe("bin/python", format!("#!/bin/sh\nP=\"${{0%/*}}/..\"\nPYTHONPATH=\"$P/lib/site:$P/stubs\" SETUPTOOLS_USE_DISTUTILS=stdlib PYTHONDONTWRITEBYTECODE=1 HARNESS_PYTHON={python} exec /usr/bin/python3 -s -X importtime=0 \"$@\"\n").replace(" -X importtime=0", "")),
    ])
}

/// Dies at the n-th file operation under the work directory (HARNESS_DIE=n, HARNESS_DIE_ROOT),
/// or just counts them (HARNESS_COUNT=file).
const CRASH_PY: &str = r#"
import os, sys
def install():
    at = int(os.environ["HARNESS_DIE"])
    root = os.environ["HARNESS_DIE_ROOT"]
    fail = "HARNESS_FAIL" in os.environ
    count = os.environ.get("HARNESS_COUNT")
    n = [int(open(count).read() or 0) if count and os.path.exists(count) else 0]
    busy = [False]
    def hook(event, args):
        if busy[0]:
            return
        if event == "open":
            path, mode, flags = args
            if not isinstance(path, (str, bytes)) or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
                return
            torn = True
        elif event in ("os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.truncate"):
            path = args[0]
            torn = False
        else:
            return
        path = os.fsdecode(path)
        if not os.path.abspath(path).startswith(root):
            return
        busy[0] = True
        try:
            for cut in ([False, True] if torn else [False]):
                if n[0] == at:
                    if fail:
                        n[0] += 1
                        if count:
                            with open(count, "w") as f:
                                f.write(str(n[0]))
                        raise OSError(28, "harness")
                    if cut:
                        os.close(os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666))
                    os.kill(os.getpid(), 9)
                n[0] += 1
            if count:
                with open(count, "w") as f:
                    f.write(str(n[0]))
        finally:
            busy[0] = False
    sys.addaudithook(hook)
"#;

pub fn sdist_bytes(name: &str, version: &str, files: &[(&str, String)]) -> Vec<u8> {
    let top = format!("{name}-{version}");
    let mut ts = vec![archive::T::dir(&format!("{top}/"))];
    for (p, text) in files {
        ts.push(archive::T::file(&format!("{top}/{p}"), text));
    }
    archive::gz(&archive::tar(&ts))
}

/// the common part of all backends
pub const BACKEND_PY: &str = r#"
import os, sys, zipfile, json
def log(*what):
    with open(os.environ["HARNESS_LOG"], "a") as f:
        f.write(json.dumps(what) + "\n")
def wheel(directory, name, version, tag, requires=(), id="built", more=""):
    base = f"{name}-{version}-{tag}.whl"
    di = f"{name}-{version}.dist-info"
    with zipfile.ZipFile(os.path.join(directory, base), "w") as z:
        put = lambda n, t: z.writestr(zipfile.ZipInfo(n), t)
        put(f"{di}/WHEEL", "Wheel-Version: 1.0\nRoot-Is-Purelib: true\nTag: " + tag + "\n")
        put(f"{di}/METADATA", metadata(name, version, requires) + more)
        put("which.txt", id)
        put(f"{name}.py", f"version = {version!r}\n")
    return base
def metadata(name, version, requires=()):
    return f"Metadata-Version: 2.1\nName: {name}\nVersion: {version}\n" + "".join(f"Requires-Dist: {r}\n" for r in requires)
"#;
