//! P21: building from source comes to an end, by the rules. P22: what is kept can be trusted.
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

use serde_json::{json, Value};

use super::core::*;
use super::world::*;
use crate::prelude::*;
use crate::resolve::*;

const PYTHON: &str = "3.11.2";
const TAGS: &[&str] = &["cp311-cp311-PLATFORM", "cp311-abi3-PLATFORM", "py3-none-PLATFORM", "py3-none-any"];

fn native() -> &'static str {
    PybiPlatform::native_platforms().unwrap()[0].core_tag()
}

/// What a request to posy came to
#[derive(Clone, Debug)]
pub(super) enum Got {
    /// the lock's packages, the environment's contents of which.txt by package (if asked for)
    Fine(Value),
    Failed(String),
    Hang,
    Died(String),
}

#[derive(Clone, Debug, Default)]
struct Ask {
    /// requirements; with a lock, the lock is used
    want: Vec<String>,
    python: String,
    lock: Option<Blueprint>,
    env: bool,
}

fn ask(home: &Home, url: &Url, a: &Ask) -> std::result::Result<(Blueprint, Value), String> {
    let platforms = [PybiPlatform::new(native())];
    let refs: Vec<&PybiPlatform> = platforms.iter().collect();
    let db = home.db(&[url.clone()]).map_err(|e| format!("{e:#}"))?;
    let lock = match &a.lock {
        Some(l) => l.clone(),
        None => {
            let brief = Brief { python: a.python.parse().unwrap(), requirements: a.want.iter().map(|s| s.parse().unwrap()).collect(), allow_pre: Default::default() };
            brief.resolve(&db, &refs, None, &[]).map_err(|e| format!("resolving: {e:#}"))?
        }
    };
    let mut pins: Vec<String> = lock.wheels.iter().map(|(p, _)| format!("{} {}", p.name.normalized(), p.version)).collect();
    pins.sort();
    let mut env = BTreeMap::new();
    let mut roots = BTreeMap::new();
    if a.env {
        let e = home.forest.get_env(&db, &lock, &refs, &[]).map_err(|e| format!("installing: {e:#}"))?;
        for (lib, (p, _)) in e.lib_dirs.iter().zip(&lock.wheels) {
            roots.insert(p.name.normalized().to_string(), lib.parent().unwrap().to_string_lossy().into_owned());
            let which = super::sys::quiet(|| std::fs::read_to_string(lib.join("which.txt")));
            env.insert(p.name.normalized().to_string(), which.unwrap_or_else(|e| format!("({e})")));
        }
    }
    Ok((lock, json!({"pins": pins, "env": env, "roots": roots})))
}

/// Do it in a process of its own.
pub(super) fn apart(dir: &Path, vars: &[(&str, String)], secs: f64, f: impl FnOnce() -> std::result::Result<Value, String>) -> Got {
    let out = dir.join("result");
    let err = dir.join("stderr");
    let _ = std::fs::remove_file(&out);
    let pid = spawn_child(|| {
        extern "C" {
            fn dup2(a: i32, b: i32) -> i32;
            fn setpgid(a: i32, b: i32) -> i32;
        }
        unsafe { setpgid(0, 0) };
        use std::os::fd::AsRawFd;
        let to = std::fs::File::create(&err).unwrap();
        unsafe {
            dup2(to.as_raw_fd(), 1);
            dup2(to.as_raw_fd(), 2);
        }
        for (k, v) in vars {
            std::env::set_var(k, v);
        }
        let r = guard(f);
        let v = match r {
            Ok(Ok(v)) => json!({"fine": v}),
            Ok(Err(m)) => json!({"failed": m}),
            Err(m) => json!({"panic": m}),
        };
        std::fs::write(&out, v.to_string()).unwrap();
        0
    });
    match wait_child(pid, secs) {
        Wait::Timeout => {
            extern "C" {
                fn kill(pid: i32, sig: i32) -> i32;
            }
            unsafe { kill(-pid, 9) };
            Got::Hang
        }
        Wait::Exit(0) => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&out).unwrap()).unwrap();
            if let Some(v) = v.get("fine") {
                Got::Fine(v.clone())
            } else if let Some(m) = v.get("failed") {
                let said = std::fs::read_to_string(&err).unwrap_or_default();
                Got::Failed(format!("{} | {}", m.as_str().unwrap(), said.lines().filter(|l| !l.trim().is_empty()).last().unwrap_or("")))
            } else {
                Got::Died(v.to_string())
            }
        }
        Wait::Exit(c) => Got::Died(format!("exit {c}")),
        Wait::Signal(s) => Got::Died(format!("signal {s}")),
    }
}

fn read_log(p: &Path) -> Vec<Vec<Value>> {
    std::fs::read_to_string(p).unwrap_or_default().lines().map(|l| serde_json::from_str(l).unwrap()).collect()
}

// ---------------------------------------------------------------- graphs

const K: usize = 6;
const N: [&str; K] = ["aa", "bb", "cc", "dd", "ee", "ff"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Kind {
    /// only a source archive
    Source,
    /// a source archive, and a wheel for elsewhere
    Elsewhere,
    /// a wheel, only
    Wheel,
}

#[derive(Clone, Debug)]
struct Graph {
    kind: [Kind; K],
    /// what it needs for building, at run time (bits)
    build: [u8; K],
    run: [u8; K],
    /// told by the backend, not the file
    dynamic: [bool; K],
    /// its backend can't prepare metadata
    plain: [bool; K],
}

impl Graph {
    fn closure(&self, of: u8) -> u8 {
        let mut s = of;
        loop {
            let mut t = s;
            for i in 0..K {
                if s & (1 << i) != 0 {
                    t |= self.run[i];
                }
            }
            if t == s {
                return s;
            }
            s = t;
        }
    }
    /// can it be built?
    fn builds(&self, i: usize, stack: u8) -> bool {
        if stack & (1 << i) != 0 {
            return false;
        }
        let need = self.closure(self.build[i]);
        (0..K).filter(|j| need & (1 << j) != 0 && self.kind[*j] != Kind::Wheel).all(|j| self.builds(j, stack | (1 << i)))
    }
    fn reach(&self) -> u8 {
        let mut s = 1u8;
        loop {
            let mut t = self.closure(s);
            for i in 0..K {
                if t & (1 << i) != 0 && self.kind[i] != Kind::Wheel {
                    t |= self.build[i];
                }
            }
            if t == s {
                return s;
            }
            s = t;
        }
    }
    fn show(&self) -> String {
        (0..K)
            .filter(|i| self.reach() & (1 << i) != 0)
            .map(|i| {
                let l = |m: u8| (0..K).filter(|j| m & (1 << j) != 0).map(|j| N[j]).collect::<Vec<_>>().join("+");
                format!("{} ({:?}{}) is built with [{}]{}, runs with [{}]", N[i], self.kind[i], if self.plain[i] { ", no metadata hook" } else { "" }, l(self.build[i]), if self.dynamic[i] { " (dynamic)" } else { "" }, l(self.run[i]))
            })
            .collect::<Vec<_>>()
            .join("; ")
    }
    fn projects(&self) -> BTreeMap<String, Vec<Served>> {
        let names = |m: u8| (0..K).filter(|j| m & (1 << j) != 0).map(|j| N[j].to_string()).collect::<Vec<_>>();
        let mut out = BTreeMap::new();
        for i in (0..K).filter(|i| self.reach() & (1 << i) != 0) {
            let n = N[i];
            let run = names(self.run[i]);
            let needs: String = run.iter().map(|r| format!("Requires-Dist: {r}\n")).collect();
            let mut files = vec![];
            if self.kind[i] != Kind::Source {
                let tag = if self.kind[i] == Kind::Wheel { "py3-none-any" } else { "py3-none-win_amd64" };
                files.push(Served::new(&format!("{n}-1.0-{tag}.whl"), wheel_bytes(n, "1.0", &needs, &[super::archive::Z::file("which.txt", format!("wheel {n}")), super::archive::Z::file(&format!("{n}.py"), "")])));
            }
            if self.kind[i] != Kind::Wheel {
                let b = names(self.build[i]);
                let py = format!(
                    r#"{BACKEND_PY}
NAME, NEEDS, RUN, DYNAMIC = {n:?}, {b:?}, {run:?}, {}
def here():
    import importlib.util
    return [m for m in {N:?} if importlib.util.find_spec(m)]
def get_requires_for_build_wheel(config_settings=None):
    log("get_requires", NAME, here(), os.getcwd(), str(config_settings))
    return NEEDS if DYNAMIC else []
def prepare_metadata_for_build_wheel(metadata_directory, config_settings=None):
    log("prepare", NAME, here(), os.getcwd(), str(config_settings))
    d = f"{{NAME}}-1.0.dist-info"
    os.mkdir(os.path.join(metadata_directory, d))
    with open(os.path.join(metadata_directory, d, "METADATA"), "w") as f:
        f.write(metadata(NAME, "1.0", RUN))
    return d
def build_wheel(wheel_directory, config_settings=None, metadata_directory=None):
    log("build", NAME, here(), os.getcwd(), str(config_settings), metadata_directory, metadata_directory and sorted(os.listdir(metadata_directory)))
    return wheel(wheel_directory, NAME, "1.0", "py3-none-any", RUN, "built " + NAME)
{}
"#,
                    if self.dynamic[i] { "True" } else { "False" },
                    if self.plain[i] { "del prepare_metadata_for_build_wheel" } else { "" }
                );
                let toml = format!("[build-system]\nrequires = {:?}\nbuild-backend = \"be\"\nbackend-path = [\".\"]\n", if self.dynamic[i] { vec![] } else { b });
                files.push(Served::new(&format!("{n}-1.0.tar.gz"), sdist_bytes(n, "1.0", &[("pyproject.toml", toml), ("be.py", py)])));
            }
            out.insert(n.to_string(), files);
        }
        out
    }
}

fn scratch(dir: &Path, n: &mut usize) -> PathBuf {
    *n += 1;
    let d = dir.join(format!("s{n}"));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir(&d).unwrap();
    d
}

fn graph(world: &World, python: &Served, dir: &Path, n: &mut usize, g: &Graph) -> std::result::Result<&'static str, String> {
    let d = scratch(dir, n);
    let log = d.join("log");
    let mut projects = g.projects();
    projects.insert("cpython".into(), vec![python.clone()]);
    let url = world.set(projects);
    let vars = [("HARNESS_LOG", log.to_str().unwrap().to_string())];
    let top = g.closure(1);
    let members: Vec<usize> = (0..K).filter(|i| top & (1 << i) != 0).collect();
    let resolves = members.iter().all(|i| g.kind[*i] != Kind::Source || g.builds(*i, 0));
    let installs = members.iter().all(|i| g.kind[*i] == Kind::Wheel || g.builds(*i, 0));
    let asked = Ask { want: vec![N[0].into()], python: "cpython".into(), lock: None, env: false };
    let home = Home::new(&d);
    let lock_file = d.join("lock");
    let mut class = "cannot be resolved";
    for round in 0..2 {
        let before = read_log(&log).len();
        let got = apart(&d, &vars, 20.0, || {
            let (lock, v) = ask(&home, &url, &asked)?;
            std::fs::write(&lock_file, serde_json::to_string(&lock).unwrap()).unwrap();
            Ok(v)
        });
        match (got, resolves) {
            (Got::Hang, _) => return Err("resolving never ends".into()),
            (Got::Died(m), _) => return Err(format!("resolving dies: {m}")),
            (Got::Fine(_), false) => return Err("it resolves, though it can't be built".into()),
            (Got::Failed(m), true) => return Err(format!("doesn't resolve: {m}")),
            (Got::Failed(_), false) => {
                if round == 1 {
                    let _ = std::fs::remove_dir_all(&d);
                    return Ok(class);
                }
                continue;
            }
            (Got::Fine(v), true) => {
                let want: Vec<String> = members.iter().map(|i| format!("{} 1.0", N[*i])).collect();
                if v["pins"] != json!(want) {
                    return Err(format!("locks {} instead of {want:?}", v["pins"]));
                }
            }
        }
        if round == 1 && read_log(&log).len() > before {
            return Err("resolving again builds again".into());
        }
        let got = apart(&d, &vars, 20.0, || {
            let lock: Blueprint = serde_json::from_str(&std::fs::read_to_string(&lock_file).unwrap()).map_err(|e| e.to_string())?;
            Ok(ask(&home, &url, &Ask { lock: Some(lock), env: true, ..Default::default() })?.1)
        });
        match (got, installs) {
            (Got::Hang, _) => return Err("installing never ends".into()),
            (Got::Died(m), _) => return Err(format!("installing dies: {m}")),
            (Got::Fine(_), false) => return Err("it's installed, though it can't be built".into()),
            (Got::Failed(m), true) => return Err(format!("isn't installed: {m}")),
            (Got::Failed(_), false) => class = "cannot be installed",
            (Got::Fine(v), true) => {
                class = "installed";
                let want: BTreeMap<&str, String> = members.iter().map(|i| (N[*i], format!("{} {}", if g.kind[*i] == Kind::Wheel { "wheel" } else { "built" }, N[*i]))).collect();
                if v["env"] != json!(want) {
                    return Err(format!("installs {} instead of {want:?}", v["env"]));
                }
            }
        }
        if round == 1 && installs && read_log(&log).len() > before {
            return Err("installing again builds again".into());
        }
    }
    // what the backends saw
    let mut times: BTreeMap<(String, String), usize> = BTreeMap::new();
    let mut prepared: BTreeSet<String> = BTreeSet::new();
    for l in read_log(&log) {
        let s = |i: usize| l[i].as_str().unwrap_or("").to_string();
        let (hook, name) = (s(0), s(1));
        let i = N.iter().position(|n| *n == name).unwrap();
        *times.entry((hook.clone(), name.clone())).or_default() += 1;
        let all = g.closure(g.build[i]);
        let here: BTreeSet<String> = l[2].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()).collect();
        let need: BTreeSet<String> = (0..K).filter(|j| all & (1 << j) != 0).map(|j| N[j].to_string()).collect();
        // before it's asked, its dynamic requirements can't be there
        let fine = if hook == "get_requires" && g.dynamic[i] { here.is_empty() || here == need } else { here == need };
        if !fine {
            return Err(format!("{hook} of {name} finds {here:?} instead of {need:?}"));
        }
        if !s(3).ends_with(&format!("/{name}-1.0")) {
            return Err(format!("{hook} of {name} runs in {}", s(3)));
        }
        if s(4) != "None" {
            return Err(format!("{hook} of {name} gets the settings {}", s(4)));
        }
        if hook == "prepare" {
            prepared.insert(name.clone());
        }
        if hook == "build" {
            let md = l[5].as_str();
            if let Some(md) = md {
                if !md.ends_with(&format!("/{name}-1.0.dist-info")) || l[6] != json!(["METADATA"]) || !prepared.contains(&name) {
                    return Err(format!("{name} is built with the metadata directory {md}, containing {}", l[6]));
                }
            }
        }
    }
    for ((hook, name), k) in times {
        if k > if hook == "get_requires" { 2 } else { 1 } {
            return Err(format!("{hook} of {name} is called {k} times"));
        }
    }
    let _ = std::fs::remove_dir_all(&d);
    Ok(class)
}

fn graphs(thorough: bool) -> Vec<Graph> {
    let mut out: Vec<Graph> = vec![];
    let mut seen = BTreeSet::new();
    let mut add = |g: Graph| {
        let r = g.reach();
        for i in 0..3 {
            if r & (1 << i) == 0 && (g.kind[i] != Kind::Source || g.build[i] != 0 || g.run[i] != 0 || g.dynamic[i] || g.plain[i]) {
                return;
            }
            if g.kind[i] == Kind::Wheel && (g.build[i] != 0 || g.dynamic[i] || g.plain[i]) {
                return;
            }
            if g.dynamic[i] && g.build[i] == 0 {
                return;
            }
        }
        // the other two are alike
        let code = |g: &Graph, p: [usize; 3]| -> String {
            let m = |x: u8| (0..3).filter(|j| x & (1 << p[*j]) != 0).map(|j| 1 << j).sum::<u8>();
            format!("{:?}", p.map(|i| (g.kind[i], m(g.build[i]), m(g.run[i]), g.dynamic[i], g.plain[i])))
        };
        if seen.insert(code(&g, [0, 1, 2])) && seen.insert(code(&g, [0, 2, 1])) || code(&g, [0, 1, 2]) == code(&g, [0, 2, 1]) {
            out.push(g);
        }
    };
    use Kind::*;
    for kinds in 0..27usize {
        let kind = pad([0, 1, 2].map(|i| [Source, Elsewhere, Wheel][kinds / 3usize.pow(i) % 3]), Source);
        for b in 0..512u32 {
            let build = pad([0, 1, 2].map(|i| (b >> (3 * i) & 7) as u8), 0);
            let edges = b.count_ones();
            let base = Graph { kind, build, run: [0; K], dynamic: [false; K], plain: [false; K] };
            if edges <= if thorough { 9 } else { 4 } {
                add(base.clone());
            }
            if edges <= if thorough { 4 } else { 2 } {
                for v in 1..64u8 {
                    let g = Graph { dynamic: pad([0, 1, 2].map(|i| v & (1 << i) != 0), false), plain: pad([0, 1, 2].map(|i| v & (8 << i) != 0), false), ..base.clone() };
                    if thorough || v.count_ones() <= 2 {
                        add(g);
                    }
                }
                for r in 1..512u32 {
                    let run = pad([0, 1, 2].map(|i| (r >> (3 * i) & 7) as u8), 0);
                    if (0..3).any(|i| run[i] & (1 << i) != 0) || edges + r.count_ones() > if thorough { 4 } else { 3 } {
                        continue;
                    }
                    add(Graph { run, ..base.clone() });
                    if thorough {
                        add(Graph { run, plain: [true; K], ..base.clone() });
                    }
                }
            }
        }
    }
    // long chains and rings: each is built or run with the next, the last with one before or nothing
    for len in 4..=K {
        for back in 0..=len {
            for style in 0..if thorough { 16 } else { 8 } {
                let mut g = Graph { kind: [Source; K], build: [0; K], run: [0; K], dynamic: [false; K], plain: [false; K] };
                for i in 0..len {
                    if style & 4 != 0 {
                        g.kind[i] = if style & 8 != 0 && i % 2 == 0 { Source } else { Elsewhere };
                    }
                    let next = if i + 1 < len { i + 1 } else { back };
                    if next == len {
                        continue;
                    }
                    if style & 1 != 0 && i % 2 == 1 {
                        if next != i {
                            g.run[i] = 1 << next;
                        }
                    } else {
                        g.build[i] = 1 << next;
                    }
                    g.plain[i] = style & 2 != 0 && i % 2 == 0;
                }
                out.push(g);
            }
        }
    }
    out
}

fn pad<T: Copy>(l: [T; 3], with: T) -> [T; K] {
    let mut o = [with; K];
    o[..3].copy_from_slice(&l);
    o
}

// ---------------------------------------------------------------- versions

/// Packages that need earlier or other versions of themselves: (name, version, as, built with)
type Release = (&'static str, &'static str, Kind, &'static str);

/// (releases, what is wanted, must it work)
fn bootstraps() -> Vec<(Vec<Release>, &'static str, Option<bool>)> {
    let mut out = vec![];
    for want in ["aa", "aa==2.0", "bb"] {
        for needs in ["aa<2", "aa", "bb", "bb<2", "aa!=2.0"] {
            for early in [None, Some((Kind::Wheel, "")), Some((Kind::Source, "")), Some((Kind::Source, "bb")), Some((Kind::Source, "aa"))] {
                for bb in [(Kind::Wheel, ""), (Kind::Source, "aa<2"), (Kind::Source, "aa"), (Kind::Source, "bb")] {
                    let mut l: Vec<Release> = vec![("aa", "2.0", Kind::Source, needs), ("bb", "1.0", bb.0, bb.1)];
                    if let Some((k, n)) = early {
                        l.push(("aa", "1.0", k, n));
                    }
                    // the clear cases
                    let early_wheel = matches!(early, Some((Kind::Wheel, _)));
                    let old = needs == "aa<2" || needs == "aa!=2.0";
                    let must = if want != "bb" && ((old && early_wheel) || (needs.starts_with("bb") && bb.0 == Kind::Wheel)) {
                        Some(true)
                    } else if want == "bb" && (bb.0 == Kind::Wheel || (bb.1 == "aa<2" && early_wheel)) {
                        Some(true)
                    } else if want == "aa==2.0" && ((old && early.is_none()) || (needs == "bb" && bb.1 == "bb")) {
                        Some(false)
                    } else {
                        None
                    };
                    out.push((l, want, must));
                }
            }
        }
    }
    out
}

fn bootstrap(world: &World, python: &Served, dir: &Path, n: &mut usize, b: &(Vec<Release>, &'static str, Option<bool>)) -> std::result::Result<&'static str, String> {
    let d = scratch(dir, n);
    let mut projects: BTreeMap<String, Vec<Served>> = BTreeMap::from([("cpython".to_string(), vec![python.clone()])]);
    for (name, version, kind, needs) in &b.0 {
        let l = projects.entry(name.to_string()).or_default();
        let id = format!("{name} {version}");
        if *kind == Kind::Wheel {
            l.push(Served::new(&format!("{name}-{version}-py3-none-any.whl"), wheel_bytes(name, version, "", &[super::archive::Z::file("which.txt", id)])));
        } else {
            let py = format!("{BACKEND_PY}\ndef build_wheel(wheel_directory, config_settings=None, metadata_directory=None):\n    return wheel(wheel_directory, {name:?}, {version:?}, 'py3-none-any', id={id:?})\n");
            let toml = format!("[build-system]\nrequires = [{}]\nbuild-backend = \"be\"\nbackend-path = [\".\"]\n", if needs.is_empty() { String::new() } else { format!("{needs:?}") });
            l.push(Served::new(&format!("{name}-{version}.tar.gz"), sdist_bytes(name, version, &[("pyproject.toml", toml), ("be.py", py)])));
        }
    }
    let url = world.set(projects);
    let home = Home::new(&d);
    for round in 0..2 {
        let got = apart(&d, &[], 20.0, || Ok(ask(&home, &url, &Ask { want: vec![b.1.into()], python: "cpython".into(), lock: None, env: true })?.1));
        match (got, b.2) {
            (Got::Hang, _) => return Err("never ends".into()),
            (Got::Died(m), _) => return Err(format!("dies: {m}")),
            (Got::Failed(m), Some(true)) => return Err(format!("doesn't work (round {round}): {m}")),
            (Got::Fine(v), Some(false)) => return Err(format!("works: {v}")),
            (Got::Fine(v), _) => {
                let pin = v["pins"][0].as_str().unwrap_or("");
                if !b.0.iter().any(|r| pin == format!("{} {}", r.0, r.1)) || v["env"] != json!({ b.1.split('=').next().unwrap(): pin }) {
                    return Err(format!("installs {v}"));
                }
            }
            _ => (),
        }
    }
    let _ = std::fs::remove_dir_all(&d);
    Ok("versions")
}



// ---------------------------------------------------------------- hooks

/// (about it, pyproject.toml or none, what the environment has besides, does it work, files' directory)
const PROJECTS: &[(&str, Option<&str>, &[&str], bool, &str)] = &[
    ("a backend in the archive", Some("[build-system]\nrequires = []\nbuild-backend = \"be\"\nbackend-path = [\".\"]\n"), &[], true, ""),
    ("one requirement", Some("[build-system]\nrequires = [\"dep\"]\nbuild-backend = \"be\"\nbackend-path = [\".\"]\n"), &["dep"], true, ""),
    ("requirements that aren't for us", Some("[build-system]\nrequires = [\"gone ; python_version < '3'\", \"dep >= 1 ; python_version > '3'\"]\nbuild-backend = \"be\"\nbackend-path = [\".\"]\n"), &["dep"], true, ""),
    ("an object as backend", Some("[build-system]\nrequires = []\nbuild-backend = \"be:Inner.obj\"\nbackend-path = [\".\"]\n"), &[], true, ""),
    ("a backend in a subdirectory", Some("[build-system]\nrequires = []\nbuild-backend = \"be\"\nbackend-path = [\"empty\", \"sub/x\"]\n"), &[], true, "sub/x/"),
    ("a backend from a requirement", Some("[build-system]\nrequires = [\"setuptools\"]\nbuild-backend = \"setuptools.build_meta\"\n"), &["setuptools_mark"], true, ""),
    ("no pyproject.toml", None, &["setuptools_mark", "wheelmark"], true, ""),
    ("an empty pyproject.toml", Some(""), &["setuptools_mark", "wheelmark"], true, ""),
    ("no build-system", Some("[project]\nname = \"pkg\"\n"), &["setuptools_mark", "wheelmark"], true, ""),
    ("requirements, no backend", Some("[build-system]\nrequires = [\"setuptools\", \"dep\"]\n"), &["setuptools_mark", "dep"], true, ""),
    ("a backend outside", Some("[build-system]\nrequires = []\nbuild-backend = \"be\"\nbackend-path = [\"..\"]\n"), &[], false, ""),
    ("no backend there", Some("[build-system]\nrequires = []\nbuild-backend = \"nowhere\"\nbackend-path = [\".\"]\n"), &[], false, ""),
    ("no such object", Some("[build-system]\nrequires = []\nbuild-backend = \"be:nothing\"\nbackend-path = [\".\"]\n"), &[], false, ""),
    ("a requirement that isn't one", Some("[build-system]\nrequires = [\"!!\"]\nbuild-backend = \"be\"\nbackend-path = [\".\"]\n"), &[], false, ""),
    ("a requirement there isn't", Some("[build-system]\nrequires = [\"gone\"]\nbuild-backend = \"be\"\nbackend-path = [\".\"]\n"), &[], false, ""),
    ("not toml", Some("[build-system\n"), &[], false, ""),
    ("the wrong type", Some("[build-system]\nrequires = \"dep\"\nbuild-backend = \"be\"\nbackend-path = [\".\"]\n"), &[], false, ""),
];

const EXITS: &[&str] = &["raise ValueError('no')", "sys.exit(0)", "os._exit(0)", "sys.exit(3)", "os.kill(os.getpid(), 9)", "return None", "return 17", "return ''", "return '!!'"];

/// get_requires_for_build_wheel: (body or absent, what it brings, does it work)
fn requires_hooks() -> Vec<(Option<String>, Option<&'static [&'static str]>)> {
    let mut l: Vec<(Option<String>, Option<&'static [&'static str]>)> = vec![(None, Some(&[])), (Some("return []".into()), Some(&[])), (Some("return ['dep']".into()), Some(&["dep"])), (Some("return ['dep>=1; python_version>\"3\"', 'gone; python_version<\"3\"']".into()), Some(&["dep"]))];
    for b in EXITS {
        // an empty string could count as no requirements
        if *b != "return ''" && *b != "return None" {
            l.push((Some(b.to_string()), None));
        }
    }
    for b in ["return ['gone']", "return ['dep>=2']", "return ['!!']", "return [3]", "return {'dep': 1}[0]"] {
        l.push((Some(b.into()), None));
    }
    l
}

/// prepare_metadata_for_build_wheel
fn prepare_hooks() -> Vec<(Option<String>, bool)> {
    let with = |text: &str, name: &str| format!("d = os.path.join(metadata_directory, 'pkg-1.0.dist-info'); os.mkdir(d); open(os.path.join(d, 'METADATA'), 'w').write({text}); {name}");
    let mut l = vec![(None, true), (Some(with("metadata('pkg', '1.0')", "return 'pkg-1.0.dist-info'")), true)];
    for b in EXITS {
        l.push((Some(with("metadata('pkg', '1.0')", b)), false));
    }
    l.push((Some("return 'pkg-1.0.dist-info'".into()), false));
    l.push((Some(with("'what is this'", "return 'pkg-1.0.dist-info'")), false));
    l.push((Some("os.mkdir(os.path.join(metadata_directory, 'pkg-1.0.dist-info')); return 'pkg-1.0.dist-info'".into()), false));
    l
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Built {
    /// installed with this tag
    Right(&'static str),
    /// also right, but says something else about the package
    Differs,
    /// can't be opened, or is another package
    Wrong,
    /// a wheel for elsewhere
    Foreign,
}

fn build_hooks() -> Vec<(String, Built)> {
    let mut l = vec![
        ("return wheel(wheel_directory, 'pkg', '1.0', 'py3-none-any')".to_string(), Built::Right("py3-none-any")),
        ("return wheel(wheel_directory, 'Pkg', '1.0.0', 'py2.py3-none-any')".into(), Built::Right("py2.py3-none-any")),
        ("return wheel(wheel_directory, 'pkg', '1.0', 'cp311-cp311-linux_x86_64')".into(), Built::Right("cp311-cp311-PLATFORM")),
        ("return wheel(wheel_directory, 'pkg', '1.0', 'cp39-abi3-linux_x86_64')".into(), Built::Foreign),
        ("return wheel(wheel_directory, 'pkg', '1.0', 'cp310-cp310-linux_x86_64')".into(), Built::Foreign),
        ("return wheel(wheel_directory, 'pkg', '1.0', 'py2-none-any')".into(), Built::Foreign),
        ("return wheel(wheel_directory, 'pkg', '1.0', 'py3-none-any', more='Provides-Extra: x\\n')".into(), Built::Differs),
        ("return wheel(wheel_directory, 'other', '1.0', 'py3-none-any')".into(), Built::Wrong),
        ("return wheel(wheel_directory, 'pkg', '1.1', 'py3-none-any')".into(), Built::Wrong),
        ("wheel(wheel_directory, 'pkg', '1.0', 'py3-none-any'); os.rename(os.path.join(wheel_directory, 'pkg-1.0-py3-none-any.whl'), os.path.join(wheel_directory, 'pkg-1.0.whl')); return 'pkg-1.0.whl'".into(), Built::Wrong),
        ("wheel(os.path.dirname(wheel_directory), 'pkg', '1.0', 'py3-none-any'); return '../pkg-1.0-py3-none-any.whl'".into(), Built::Wrong),
        ("return 'pkg-1.0-py3-none-any.whl'".into(), Built::Wrong),
        ("open(os.path.join(wheel_directory, 'pkg-1.0-py3-none-any.whl'), 'w').write('not a wheel'); return 'pkg-1.0-py3-none-any.whl'".into(), Built::Wrong),
        // another package's wheel, named like ours
        ("os.rename(os.path.join(wheel_directory, wheel(wheel_directory, 'other', '1.0', 'py3-none-any')), os.path.join(wheel_directory, 'pkg-1.0-py3-none-any.whl')); return 'pkg-1.0-py3-none-any.whl'".into(), Built::Wrong),
    ];
    for b in EXITS {
        l.push((format!("wheel(wheel_directory, 'pkg', '1.0', 'py3-none-any'); {b}"), Built::Wrong));
    }
    l
}

/// the sdist: (about it, bytes from its files, does it work)
const ARCHIVES: &[(&str, bool)] = &[("usual", true), ("zip", true), ("oddly named directory", true), ("two directories", false), ("nothing", false), ("no directory", false), ("not an archive", false), ("cut short", false)];

fn archive_of(i: usize, files: &[(&str, String)]) -> (&'static str, Vec<u8>) {
    use super::archive::{gz, tar, zip, T, Z};
    let usual = sdist_bytes("pkg", "1.0", files);
    match i {
        0 => ("pkg-1.0.tar.gz", usual),
        1 => ("pkg-1.0.zip", zip(&files.iter().map(|(p, t)| Z::file(&format!("pkg-1.0/{p}"), t)).collect::<Vec<_>>())),
        2 => ("pkg-1.0.tar.gz", sdist_bytes("Quite", "another", files)),
        3 => ("pkg-1.0.tar.gz", gz(&tar(&files.iter().flat_map(|(p, t)| [T::file(&format!("pkg-1.0/{p}"), t), T::file(&format!("pkg-1.1/{p}"), t)]).collect::<Vec<_>>()))),
        4 => ("pkg-1.0.tar.gz", gz(&tar(&[]))),
        5 => ("pkg-1.0.tar.gz", gz(&tar(&files.iter().map(|(p, t)| T::file(p, t)).collect::<Vec<_>>()))),
        6 => ("pkg-1.0.tar.gz", b"no archive".to_vec()),
        _ => ("pkg-1.0.tar.gz", usual[..usual.len() / 2].to_vec()),
    }
}

#[derive(Clone, Copy, Debug)]
struct Hooks {
    project: usize,
    requires: usize,
    prepare: usize,
    build: usize,
    archive: usize,
}

fn hooks() -> Vec<Hooks> {
    let (rs, ps, bs) = (requires_hooks(), prepare_hooks(), build_hooks());
    let base = Hooks { project: 0, requires: 1, prepare: 1, build: 0, archive: 0 };
    let mut out = vec![];
    for project in 0..PROJECTS.len() {
        for prepare in 0..2 {
            for requires in [0, 1, 2] {
                out.push(Hooks { project, prepare, requires, ..base });
            }
        }
    }
    for requires in 0..rs.len() {
        for prepare in 0..ps.len() {
            for build in 0..bs.len() {
                // what can't come up
                if (rs[requires].1.is_none() && (prepare > 1 || build > 0)) || (!ps[prepare].1 && build > 0) {
                    continue;
                }
                out.push(Hooks { requires, prepare, build, ..base });
            }
        }
    }
    for archive in 1..ARCHIVES.len() {
        for prepare in 0..2 {
            out.push(Hooks { prepare, archive, ..base });
        }
    }
    out
}

fn hook_sdist(h: &Hooks) -> (&'static str, Vec<u8>) {
    let (rs, ps, bs) = (requires_hooks(), prepare_hooks(), build_hooks());
    let mut py = format!(
        r#"{BACKEND_PY}
def note(hook, *more):
    import importlib.util
    log(hook, [m for m in ("dep", "setuptools_mark", "wheelmark") if importlib.util.find_spec(m)], os.getcwd(), sys.stdin.read(), *more)
    print("pkg-9-py3-none-any.whl", flush=True)
"#
    );
    if let Some(b) = &rs[h.requires].0 {
        py += &format!("def get_requires_for_build_wheel(config_settings=None):\n    note('get_requires', str(config_settings))\n    {b}\n");
    }
    if let Some(b) = &ps[h.prepare].0 {
        py += &format!("def prepare_metadata_for_build_wheel(metadata_directory, config_settings=None):\n    note('prepare', str(config_settings), metadata_directory, sorted(os.listdir(metadata_directory)))\n    {b}\n");
    }
    py += &format!("def build_wheel(wheel_directory, config_settings=None, metadata_directory=None):\n    note('build', str(config_settings), wheel_directory, sorted(os.listdir(wheel_directory)), metadata_directory, metadata_directory and sorted(os.listdir(metadata_directory)))\n    {}\n", bs[h.build].0);
    py += "class Inner:\n    obj = sys.modules[__name__]\n";
    let (_, toml, _, _, at) = PROJECTS[h.project];
    let place = format!("{at}be.py");
    let mut files = vec![(&place[..], py), ("empty/x.txt", String::new()), ("setup.py", "raise ValueError('not to be run')\n".to_string())];
    if let Some(t) = toml {
        files.push(("pyproject.toml", t.to_string()));
    }
    archive_of(h.archive, &files)
}

fn hook_world(h: &Hooks, python: &Served) -> BTreeMap<String, Vec<Served>> {
    use super::archive::Z;
    let (name, bytes) = hook_sdist(h);
    let lib = |n: &str, zs: &[Z]| (n.to_string(), vec![Served::new(&format!("{n}-1.0-py3-none-any.whl"), wheel_bytes(n, "1.0", "", zs))]);
    BTreeMap::from([
        ("cpython".to_string(), vec![python.clone()]),
        ("pkg".to_string(), vec![Served::new(name, bytes)]),
        lib("dep", &[Z::file("dep.py", "")]),
        lib("wheel", &[Z::file("wheelmark.py", "")]),
        lib("setuptools", &[Z::file("setuptools_mark.py", ""), Z::file("setuptools/__init__.py", ""), Z::file("setuptools/build_meta.py", "import os, sys\nsys.path.insert(0, os.getcwd())\nimport be\n__legacy__ = be\nif hasattr(be, 'get_requires_for_build_wheel'): get_requires_for_build_wheel = be.get_requires_for_build_wheel\nif hasattr(be, 'prepare_metadata_for_build_wheel'): prepare_metadata_for_build_wheel = be.prepare_metadata_for_build_wheel\nbuild_wheel = be.build_wheel\n")]),
    ])
}

fn hook_show(h: &Hooks) -> String {
    format!("{} ({}); requirements: {}; metadata: {}; wheel: {}", PROJECTS[h.project].0, ARCHIVES[h.archive].0, requires_hooks()[h.requires].0.as_deref().unwrap_or("-"), prepare_hooks()[h.prepare].0.as_deref().unwrap_or("-"), build_hooks()[h.build].0)
}

fn hook(world: &World, python: &Served, dir: &Path, n: &mut usize, h: &Hooks) -> std::result::Result<&'static str, String> {
    let (rs, ps, bs) = (requires_hooks(), prepare_hooks(), build_hooks());
    let d = scratch(dir, n);
    let log = d.join("log");
    let url = world.set(hook_world(h, python));
    let vars = [("HARNESS_LOG", log.to_str().unwrap().to_string())];
    let starts = PROJECTS[h.project].3 && ARCHIVES[h.archive].1;
    let brings = rs[h.requires].1;
    let has_prepare = ps[h.prepare].0.is_some();
    let opens = bs[h.build].1 != Built::Wrong;
    let resolves = starts && brings.is_some() && if has_prepare { ps[h.prepare].1 } else { opens };
    let tag = match bs[h.build].1 {
        Built::Right(t) => Some(t),
        Built::Differs if !has_prepare => Some("py3-none-any"),
        _ => None,
    };
    let installs = resolves && tag.is_some();
    let home = Home::new(&d);
    let lock_file = d.join("lock");
    for round in 0..2 {
        let before = read_log(&log).len();
        let got = apart(&d, &vars, 20.0, || {
            let (lock, v) = ask(&home, &url, &Ask { want: vec!["pkg".into()], python: "cpython".into(), lock: None, env: false })?;
            std::fs::write(&lock_file, serde_json::to_string(&lock).unwrap()).unwrap();
            Ok(v)
        });
        match (got, resolves) {
            (Got::Hang, _) => return Err("resolving never ends".into()),
            (Got::Died(m), _) => return Err(format!("resolving dies: {m}")),
            (Got::Fine(_), false) => return Err("resolves".into()),
            (Got::Failed(m), true) => return Err(format!("doesn't resolve (round {round}): {m}")),
            (Got::Failed(_), false) => continue,
            (Got::Fine(v), true) => {
                if v["pins"] != json!(["pkg 1.0"]) {
                    return Err(format!("locks {}", v["pins"]));
                }
            }
        }
        if round == 1 && read_log(&log).len() > before {
            return Err("resolving again builds again".into());
        }
        let before = read_log(&log).len();
        let got = apart(&d, &vars, 20.0, || {
            let lock: Blueprint = serde_json::from_str(&std::fs::read_to_string(&lock_file).unwrap()).map_err(|e| e.to_string())?;
            Ok(ask(&home, &url, &Ask { lock: Some(lock), env: true, ..Default::default() })?.1)
        });
        match (got, installs) {
            (Got::Hang, _) => return Err("installing never ends".into()),
            (Got::Died(m), _) => return Err(format!("installing dies: {m}")),
            (Got::Fine(v), false) => return Err(format!("installs {v}")),
            (Got::Failed(m), true) => return Err(format!("isn't installed (round {round}): {m}")),
            (Got::Failed(_), false) => (),
            (Got::Fine(v), true) => {
                if v["env"] != json!({"pkg": "built"}) {
                    return Err(format!("installs {}", v["env"]));
                }
                let root = v["roots"]["pkg"].as_str().unwrap_or("");
                let want = tag.unwrap().replace("PLATFORM", native());
                if !root.ends_with(&format!("-{want}.whl")) {
                    return Err(format!("installs {root} for {want}"));
                }
            }
        }
        if round == 1 && installs && read_log(&log).len() > before {
            return Err("installing again builds again".into());
        }
    }
    // what the hooks saw
    let mut prepared = false;
    let mut counts: BTreeMap<String, usize> = BTreeMap::new();
    for l in read_log(&log) {
        let name = l[0].as_str().unwrap_or("").to_string();
        let here: BTreeSet<String> = l[1].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()).collect();
        let fixed: BTreeSet<String> = PROJECTS[h.project].2.iter().map(|s| s.to_string()).collect();
        let mut all = fixed.clone();
        all.extend(brings.unwrap_or(&[]).iter().map(|s| s.to_string()));
        let fine = if name == "get_requires" { here == fixed || here == all } else { here == all };
        if !fine {
            return Err(format!("{name} finds {here:?} instead of {all:?}"));
        }
        let top = ["/pkg-1.0", "/Quite-another"];
        if !top.iter().any(|t| l[2].as_str().unwrap().ends_with(t)) {
            return Err(format!("{name} runs in {}", l[2]));
        }
        if l[3] != json!("") || l[4] != json!("None") {
            return Err(format!("{name} gets the input {} and settings {}", l[3], l[4]));
        }
        let dir_ok = |v: &Value, list: &Value| v.as_str().map_or(false, |s| s.starts_with('/')) && list == &json!([]);
        if (name == "prepare" || name == "build") && !dir_ok(&l[5], &l[6]) {
            return Err(format!("{name} gets the directory {} with {}", l[5], l[6]));
        }
        if name == "prepare" {
            prepared = true;
        }
        if name == "build" {
            // it may be given, if it's right
            if l[7] != json!(null) && (!prepared || !ps[h.prepare].1 || !l[7].as_str().unwrap().ends_with("/pkg-1.0.dist-info") || l[8] != json!(["METADATA"])) {
                return Err(format!("build gets the metadata {} with {}", l[7], l[8]));
            }
        }
        *counts.entry(name).or_default() += 1;
    }
    if installs {
        for (name, k) in counts {
            if k > 1 {
                return Err(format!("{name} is called {k} times"));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&d);
    Ok(if installs { "installed" } else if resolves { "refused when installing" } else { "refused" })
}

#[derive(Clone, Debug)]
enum C21 {
    Graphs(usize),
    Hooks(usize),
    Versions(usize),
}

pub fn p21(mut ctx: Ctx) -> i32 {
    ctx.hang_secs = 800;
    ctx.unprivileged = true;
    let all = graphs(ctx.thorough());
    let chunk = 8;
    let all = if std::env::var("VERIF_ONLY").map_or(false, |v| v == "hooks") { vec![] } else { all };
    let mut cases: Vec<C21> = (0..all.len()).step_by(chunk).map(C21::Graphs).collect();
    let hs = hooks();
    let vs = bootstraps();
    if std::env::var("VERIF_VERBOSE").is_ok() {
        eprintln!("{} graphs, {} hooks, {} of versions", all.len(), hs.len(), vs.len());
    }
    cases.extend((0..vs.len()).step_by(chunk).map(C21::Versions));
    cases.extend((0..hs.len()).step_by(chunk).map(C21::Hooks));
    ctx.run_cases(&cases, |c| format!("{c:?}"), |case, rep, dir| {
        let key = format!("{case:?}");
        rep.states += 1;
        let world = World::start();
        let python = Served::new(&format!("cpython-{PYTHON}-manylinux_2_17_x86_64.pybi"), working_python(PYTHON, TAGS));
        let mut n = 0;
        match case {
            C21::Graphs(i) => {
                let mut bad = 0;
                for g in &all[*i..all.len().min(i + chunk)] {
                    rep.transitions += 1;
                    rep.traces += 1;
                    match graph(&world, &python, dir, &mut n, g) {
                        Ok(o) => {
                            rep.case(&format!("{} {o}", g.show()), true);
                            rep.outcome(o)
                        }
                        Err(m) => {
                            rep.violation(format!("{key} graph {}", g.show()), format!("{}: {m}", g.show()));
                            bad += 1;
                        }
                    }
                    if bad > 1 {
                        break;
                    }
                }
            }
            C21::Versions(i) => {
                for v in &vs[*i..vs.len().min(i + chunk)] {
                    rep.transitions += 1;
                    rep.traces += 1;
                    match bootstrap(&world, &python, dir, &mut n, v) {
                        Ok(o) => {
                            rep.case(&format!("{v:?} {o}"), true);
                            rep.outcome(o)
                        }
                        Err(m) => {
                            rep.violation(format!("{key} versions {v:?}"), format!("{v:?}: {m}"));
                            break;
                        }
                    }
                }
            }
            C21::Hooks(i) => {
                let mut bad = 0;
                for h in &hs[*i..hs.len().min(i + chunk)] {
                    rep.transitions += 1;
                    rep.traces += 1;
                    match hook(&world, &python, dir, &mut n, h) {
                        Ok(o) => {
                            rep.case(&format!("{} {o}", hook_show(h)), true);
                            rep.outcome(o);
                            if h.requires == 2 && h.prepare == 1 && h.build == 2 {
                                rep.sample(json!({"hooks": hook_show(h), "outcome": o}));
                            }
                        }
                        Err(m) => {
                            rep.violation(format!("{key} hooks {h:?}"), format!("{}: {m}", hook_show(h)));
                            bad += 1;
                        }
                    }
                    if bad > 1 {
                        break;
                    }
                }
            }
        }
    });
    cases.clear();
    finish(ctx, Level {
        level: "model_checking",
        rule: "all build graphs of up to three packages, each a source archive, a source archive with a wheel for elsewhere, or a wheel, by what each needs for building (up to 4 needs, thorough 9), told by file or hook, with or without the metadata hook, and at run time; chains and rings of 4 to 6; packages built with other versions of themselves; and all outcomes of each backend hook x kinds of pyproject.toml x kinds of archive; each is resolved, installed, and both repeated, in processes of their own, running the backends; states = groups of situations, transitions = situations",
        assumptions: &["the interpreter archive's python is the system's", "20 s without an end are a hang", "backends that don't return are not considered"],
    })
}

// ---------------------------------------------------------------- P22

const OTHER_PYTHON: &str = "3.10.1";
const OTHER_TAGS: &[&str] = &["cp310-cp310-PLATFORM", "cp310-abi3-PLATFORM", "py3-none-PLATFORM", "py3-none-any"];

/// Dies, or fails, at one of the file operations; like a process does.
pub(super) struct Doom {
    pub root: String,
    pub at: usize,
    pub how: How,
    pub n: std::cell::Cell<usize>,
    /// the wheel cache is on another file system
    pub apart: bool,
    pub out: Option<PathBuf>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub(super) enum How {
    Die,
    Torn,
    Full,
    Broken,
}

impl super::sys::Env for Doom {
    fn root(&self) -> &str {
        &self.root
    }
    fn pre(&self, op: &super::sys::Op) -> super::sys::Answer {
        use super::sys::{Answer, K};
        if op.kind == K::Close {
            return Answer::Go;
        }
        let i = self.n.get();
        self.n.set(i + 1);
        if i == self.at {
            if let Some(o) = &self.out {
                let _ = std::fs::write(o, op.show());
            }
            match self.how {
                How::Die => unsafe { _exit(99) },
                How::Torn => {
                    if op.kind == K::Write {
                        extern "C" {
                            fn syscall(n: i64, ...) -> i64;
                        }
                        unsafe { syscall(1, op.fd as i64, op.data.as_ptr(), op.data.len() / 2) };
                    }
                    unsafe { _exit(99) }
                }
                How::Full => return Answer::Errno(super::sys::ENOSPC),
                How::Broken => return Answer::Errno(super::sys::EIO),
            }
        }
        if self.apart && op.kind == K::Rename && op.p1.contains("/build/") && op.p2.contains("/cache/") {
            return Answer::Errno(super::sys::EXDEV);
        }
        match op.kind {
            K::Sync => Answer::Fake(0),
            _ => Answer::Go,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Way {
    /// has the metadata hook
    prepares: bool,
    /// its wheels are for one python
    binary: bool,
    /// needs a package for building, told by the hook
    needs: bool,
}

/// Fails in the given way at each call that the file's bits tell
const FLAKY_PY: &str = r#"
def flaky(where, leave):
    plan = os.environ.get("HARNESS_PLAN")
    if not plan:
        return
    bits, how = plan.split(":")
    f = os.environ["HARNESS_CALLS"]
    k = int(open(f).read()) if os.path.exists(f) else 0
    with open(f, "w") as o:
        o.write(str(k + 1))
    if int(bits) >> k & 1:
        leave()
        if how == "raise":
            raise RuntimeError("not this time")
        if how == "exit":
            os._exit(0)
        os.kill(os.getpid(), 9)
"#;

fn pkg_sdist(w: &Way, id: &str) -> Served {
    pkg_sdist_with(w, id, if w.binary { "CP + '-' + CP + '-linux_x86_64'" } else { "'py3-none-any'" })
}

fn pkg_sdist_with(w: &Way, id: &str, tag: &str) -> Served {
    let py = format!(
        r#"{BACKEND_PY}{FLAKY_PY}
PY = os.environ["HARNESS_PYTHON"]
CP = "cp" + "".join(PY.split(".")[:2])
TAG = {}
def half(d):
    def leave():
        os.mkdir(os.path.join(d, "pkg-1.0.dist-info"))
        open(os.path.join(d, "pkg-1.0.dist-info", "METADATA"), "w").write("half")
        open(os.path.join(d, "pkg-1.0-py3-none-any.whl"), "w").write("half")
    return leave
def get_requires_for_build_wheel(config_settings=None):
    log("get_requires")
    flaky("get_requires", lambda: None)
    return {}
def prepare_metadata_for_build_wheel(metadata_directory, config_settings=None):
    log("prepare")
    flaky("prepare", half(metadata_directory))
    d = "pkg-1.0.dist-info"
    os.mkdir(os.path.join(metadata_directory, d))
    with open(os.path.join(metadata_directory, d, "METADATA"), "w") as f:
        f.write(metadata("pkg", "1.0", []))
    return d
def build_wheel(wheel_directory, config_settings=None, metadata_directory=None):
    log("build")
    flaky("build", half(wheel_directory))
    if metadata_directory and open(os.path.join(metadata_directory, "METADATA")).read() != metadata("pkg", "1.0", []):
        raise RuntimeError("that's not our metadata")
    return wheel(wheel_directory, "pkg", "1.0", TAG, id="{id} " + PY + " " + TAG)
{}
"#,
        tag,
        if w.needs { "['dep']" } else { "[]" },
        if w.prepares { "" } else { "del prepare_metadata_for_build_wheel" }
    );
    let toml = "[build-system]\nrequires = []\nbuild-backend = \"be\"\nbackend-path = [\".\"]\n".to_string();
    Served::new("pkg-1.0.tar.gz", sdist_bytes("pkg", "1.0", &[("pyproject.toml", toml), ("be.py", py)]))
}

fn p22_world(sdist: Served) -> BTreeMap<String, Vec<Served>> {
    let py = |v: &str, tags| Served::new(&format!("cpython-{v}-manylinux_2_17_x86_64.pybi"), working_python(v, tags));
    BTreeMap::from([
        ("cpython".to_string(), vec![py(PYTHON, TAGS), py(OTHER_PYTHON, OTHER_TAGS)]),
        ("pkg".to_string(), vec![sdist]),
        ("dep".to_string(), vec![Served::new("dep-1.0-py3-none-any.whl", wheel_bytes("dep", "1.0", "", &[super::archive::Z::file("dep.py", ""), super::archive::Z::file("which.txt", "dep")]))]),
    ])
}

fn copy_tree(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let t = to.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            copy_tree(&e.path(), &t);
        } else if e.file_type().unwrap().is_symlink() {
            std::os::unix::fs::symlink(std::fs::read_link(e.path()).unwrap(), t).unwrap();
        } else {
            std::fs::copy(e.path(), t).unwrap();
        }
    }
}

/// What is kept: environments, wheels and metadata
fn kept(home: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(at: &Path, name: String, out: &mut BTreeMap<String, Vec<u8>>) {
        let Ok(l) = std::fs::read_dir(at) else { return };
        for e in l.flatten() {
            let f = e.file_name().to_string_lossy().into_owned();
            let n = format!("{name}/{f}");
            if e.file_type().unwrap().is_dir() {
                out.insert(n.clone(), vec![]);
                walk(&e.path(), n, out);
            } else if !f.ends_with(".lock") {
                out.insert(n, std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
    let mut out = BTreeMap::new();
    for d in ["forest/sha256", "cache/local-wheels/sha256", "cache/metadata/sha256"] {
        walk(&home.join(d), d.to_string(), &mut out);
    }
    // directories that only lead to locks don't matter
    let keep: Vec<String> = out.keys().cloned().collect();
    out.retain(|k, v| !v.is_empty() || keep.iter().any(|o| o.starts_with(&format!("{k}/"))) || k.contains(".whl"));
    loop {
        let names: Vec<String> = out.keys().cloned().collect();
        let n = out.len();
        out.retain(|k, v| !v.is_empty() || k.contains(".whl/") || k.contains(".dist-info") || names.iter().any(|o| o.starts_with(&format!("{k}/"))));
        if out.len() == n {
            return out;
        }
    }
}

fn differ(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) -> Option<String> {
    for (k, v) in a {
        match b.get(k) {
            None => return Some(format!("{k} is missing")),
            Some(w) if w != v => return Some(format!("{k} has {} bytes instead of {}", w.len(), v.len())),
            _ => (),
        }
    }
    b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("{k} is left"))
}

struct Bench22 {
    world: World,
    dir: PathBuf,
    n: usize,
}

const LATEST: &str = "cpython == 3.11.2";
const OTHER: &str = "cpython == 3.10.1";

impl Bench22 {
    fn scratch(&mut self) -> PathBuf {
        scratch(&self.dir.clone(), &mut self.n)
    }
    fn request(&self, d: &Path, vars: &[(&str, String)], url: &Url, python: &str, env: bool, doom: Option<Doom>) -> Got {
        self.request_for("pkg", d, vars, url, python, env, doom)
    }
    #[allow(clippy::too_many_arguments)]
    fn request_for(&self, what: &str, d: &Path, vars: &[(&str, String)], url: &Url, python: &str, env: bool, doom: Option<Doom>) -> Got {
        let mut vars: Vec<(&str, String)> = vars.to_vec();
        vars.push(("HARNESS_LOG", d.join("log").to_string_lossy().into_owned()));
        apart(d, &vars, 20.0, || {
            let home = Home::new(&d.join("home"));
            let go = || Ok(ask(&home, url, &Ask { want: vec![what.into()], python: python.into(), lock: None, env })?.1);
            match &doom {
                None => go(),
                Some(x) => {
                    let r = super::sys::with_env(x, go);
                    std::fs::write(d.join("ops"), x.n.get().to_string()).unwrap();
                    r
                }
            }
        })
    }
    fn doom(&self, d: &Path, at: usize, how: How, apart: bool) -> Doom {
        Doom { root: d.join("home").to_str().unwrap().into(), at, how, n: Default::default(), apart, out: Some(d.join("at")) }
    }
}

/// What a request must come to: this wheel
fn expect(v: &Value, id: &str, python: &str, w: &Way) -> std::result::Result<(), String> {
    let cp = format!("cp{}", python.split('.').take(2).collect::<String>());
    let tag = if w.binary { format!("{cp}-{cp}-linux_x86_64") } else { "py3-none-any".to_string() };
    let root = if w.binary { format!("{cp}-{cp}-{}", native()) } else { tag.clone() };
    let which = v["env"]["pkg"].as_str().unwrap_or("").to_string();
    let at = v["roots"]["pkg"].as_str().unwrap_or("").to_string();
    let fine = if w.binary { which == format!("{id} {python} {tag}") } else { which.starts_with(&format!("{id} 3.1")) && which.ends_with(&format!(" {tag}")) };
    if v["pins"] != json!(["pkg 1.0"]) || !fine || !at.ends_with(&format!("-{root}.whl")) {
        return Err(format!("it's {which:?} in {at:?} with {}", v["pins"]));
    }
    Ok(())
}

fn ways() -> Vec<Way> {
    vec![Way { prepares: true, binary: false, needs: false }, Way { prepares: false, binary: true, needs: true }, Way { prepares: true, binary: true, needs: true }, Way { prepares: false, binary: false, needs: false }]
}

impl Bench22 {
    /// A home where everything but the package has been set up
    fn warm(&mut self, url: &Url) -> std::result::Result<PathBuf, String> {
        let d = self.scratch();
        for python in [LATEST, OTHER] {
            match self.request_for("dep", &d, &[], url, python, true, None) {
                Got::Fine(_) => (),
                o => return Err(format!("setting up: {o:?}")),
            }
        }
        Ok(d)
    }

    /// One fault, then again without.
    fn crash(&mut self, rep: &mut Rep, thorough: bool, w: &Way, part: Part, env: bool, share: (usize, usize)) -> std::result::Result<(), String> {
        let url = self.world.set(p22_world(pkg_sdist(w, "one")));
        let base = self.warm(&url)?;
        let far = matches!(part, Part::Apart);
        let fresh = self.scratch();
        copy_tree(&base.join("home"), &fresh.join("home"));
        let count = fresh.join("count");
        let vars = |d: &Path, at: i64, fail: bool| -> Vec<(&'static str, String)> {
            let mut l = vec![("HARNESS_DIE", at.to_string()), ("HARNESS_DIE_ROOT", d.join("home").to_string_lossy().into_owned()), ("HARNESS_COUNT", d.join("count").to_string_lossy().into_owned())];
            if fail {
                l.push(("HARNESS_FAIL", "1".into()));
            }
            l
        };
        let doom = self.doom(&fresh, usize::MAX, How::Die, far);
        let got = self.request(&fresh, &vars(&fresh, -1, false), &url, LATEST, env, Some(doom));
        let num = |p: PathBuf| -> usize { std::fs::read_to_string(p).ok().and_then(|s| s.parse().ok()).unwrap_or(0) };
        let (ops, steps) = (num(fresh.join("ops")), num(count));
        let Got::Fine(v) = got else { return Err(format!("without faults: {got:?}")) };
        if env {
            expect(&v, "one", PYTHON, w).map_err(|m| format!("without faults: {m}"))?;
        }
        if steps == 0 || ops < 20 {
            return Err(format!("only {ops} and {steps} operations"));
        }
        // in the end everything has been asked for
        if !env {
            let Got::Fine(_) = self.request(&fresh, &[], &url, LATEST, true, Some(self.doom(&fresh, usize::MAX, How::Die, far))) else { return Err("then installing: fails".into()) };
        }
        let want = kept(&fresh.join("home"));
        if !want.keys().any(|k| k.contains("local-wheels") && k.ends_with(".whl")) {
            return Err("no wheel is kept".into());
        }
        let mut plans: Vec<(usize, How)> = vec![];
        let total = if part == Part::Python { steps } else { ops };
        for at in 0..total {
            for how in match part {
                Part::Posy if thorough => vec![How::Die, How::Torn, How::Full, How::Broken],
                Part::Posy => vec![How::Die, How::Torn, How::Full],
                Part::Python => vec![How::Die, How::Full],
                Part::Apart => vec![How::Die, How::Torn, How::Full],
            } {
                plans.push((at, how));
            }
        }
        for (at, how) in plans.into_iter().skip(share.0).step_by(share.1) {
            let d = self.scratch();
            copy_tree(&base.join("home"), &d.join("home"));
            let got = if part == Part::Python {
                self.request(&d, &vars(&d, at as i64, how == How::Full), &url, LATEST, env, None)
            } else {
                let x = self.doom(&d, at, how, far);
                self.request(&d, &[], &url, LATEST, env, Some(x))
            };
            let place = std::fs::read_to_string(d.join("at")).unwrap_or_default();
            if how == How::Torn && !place.starts_with("Write") {
                let _ = std::fs::remove_dir_all(&d);
                continue;
            }
            rep.transitions += 1;
            let what = format!("{w:?}, {part:?}, {how:?} at {at} of {total} ({})", place.replace(d.to_str().unwrap(), ""));
            let died = match (&got, how) {
                (Got::Died(m), How::Die | How::Torn) if m == "exit 99" => true,
                (Got::Failed(_), _) => true,
                (Got::Fine(v), _) => {
                    if env {
                        expect(v, "one", PYTHON, w).map_err(|m| format!("{what}: {m}"))?;
                    }
                    false
                }
                (o, _) => return Err(format!("{what}: {o:?}")),
            };
            let doom = far.then(|| self.doom(&d, usize::MAX, How::Die, far));
            match self.request(&d, &[], &url, LATEST, true, doom) {
                Got::Fine(v) => expect(&v, "one", PYTHON, w).map_err(|m| format!("{what}, and again: {m}"))?,
                o => return Err(format!("{what}, and again: {o:?}")),
            }
            if let Some(m) = differ(&want, &kept(&d.join("home"))) {
                return Err(format!("{what}, and again: {m}"));
            }
            rep.outcome(if died { "interrupted, then right" } else { "not interrupted" });
            let _ = std::fs::remove_dir_all(&d);
        }
        let _ = std::fs::remove_dir_all(&base);
        let _ = std::fs::remove_dir_all(&fresh);
        Ok(())
    }

    /// Backends that fail sometimes
    fn flaky(&mut self, rep: &mut Rep, w: &Way, how: &str, first_env: bool) -> std::result::Result<(), String> {
        let url = self.world.set(p22_world(pkg_sdist(w, "one")));
        let base = self.warm(&url)?;
        for plan in 1..16u32 {
            let d = self.scratch();
            copy_tree(&base.join("home"), &d.join("home"));
            let vars = [("HARNESS_PLAN", format!("{plan}:{how}")), ("HARNESS_CALLS", d.join("calls").to_string_lossy().into_owned())];
            let mut fine = false;
            let mut tries = 0;
            rep.transitions += 1;
            let calls = || std::fs::read_to_string(d.join("calls")).ok().and_then(|s| s.parse::<u32>().ok()).unwrap_or(0);
            let failures = |a: u32, b: u32| (a..b).filter(|k| plan >> k & 1 == 1).count();
            while !fine {
                let env = first_env || tries > 0;
                let before = calls();
                let got = self.request(&d, &vars, &url, LATEST, env, None);
                let failed = failures(before, calls());
                match got {
                    Got::Fine(v) => {
                        // leaving quietly is like having had nothing to do
                        if failed > 0 && how != "exit" {
                            return Err(format!("{w:?}, failing by {plan:b} ({how}): fine, though a hook failed"));
                        }
                        if env {
                            expect(&v, "one", PYTHON, w).map_err(|m| format!("{w:?}, failing by {plan:b} ({how}): {m}"))?;
                            fine = true;
                        }
                    }
                    Got::Failed(m) => {
                        if failed != 1 && !(failed > 1 && how == "exit") {
                            return Err(format!("{w:?}, failing by {plan:b} ({how}), try {tries}: {failed} hooks failed, and it said {m}"));
                        }
                    }
                    o => return Err(format!("{w:?}, failing by {plan:b} ({how}): {o:?}")),
                }
                tries += 1;
                if tries > 8 {
                    return Err(format!("{w:?}, failing by {plan:b} ({how}): never works"));
                }
            }
            rep.outcome(if tries > 1 { "worked after failures" } else { "worked at once" });
            let _ = std::fs::remove_dir_all(&d);
        }
        let _ = std::fs::remove_dir_all(&base);
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Part {
    Posy,
    Python,
    Apart,
}

// ---- histories

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    /// install with the newer python, or the other
    Env(bool),
    Resolve(bool),
    /// the cached wheels, metadata, build directories, environments are removed
    NoWheels,
    NoMetadata,
    NoBuilds,
    NoForest,
    /// the source archive is replaced
    Replace,
}
const EVS: [Ev; 9] = [Ev::Env(true), Ev::Env(false), Ev::Resolve(true), Ev::Resolve(false), Ev::NoWheels, Ev::NoMetadata, Ev::NoBuilds, Ev::NoForest, Ev::Replace];

/// tag of its wheel made with the newer python, the other
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Tags {
    Pure,
    Own,
    /// made for the newer python only, otherwise pure
    Mixed,
}

fn history_sdist(t: Tags, prepares: bool, id: &str) -> Served {
    let mut f = pkg_sdist(&Way { prepares, binary: t != Tags::Pure, needs: false }, id);
    if t == Tags::Mixed {
        // the archive is made anew, with another tag
        let w = Way { prepares, binary: true, needs: false };
        f = pkg_sdist_with(&w, id, "CP + '-' + CP + '-linux_x86_64' if CP == 'cp311' else 'py3-none-any'");
    }
    f
}

impl Bench22 {
    fn history(&mut self, base: &Path, sdists: &[Served], urls: &[Url], t: Tags, evs: &[Ev]) -> std::result::Result<(), String> {
        let d = self.scratch();
        copy_tree(&base.join("home"), &d.join("home"));
        let mut now = 0;
        // tags of the wheels that are kept, by source archive
        let mut forest: Vec<BTreeSet<&str>> = vec![Default::default(); sdists.len()];
        let mut wheels = forest.clone();
        let fits = |tag: &str, new: bool| tag == "any" || (tag == "cp311") == new;
        let makes = |new: bool| match (t, new) {
            (Tags::Pure, _) | (Tags::Mixed, false) => "any",
            (_, true) => "cp311",
            (_, false) => "cp310",
        };
        for (i, ev) in evs.iter().enumerate() {
            let gone = match ev {
                Ev::NoWheels => {
                    wheels.iter_mut().for_each(|s| s.clear());
                    Some("cache/local-wheels")
                }
                Ev::NoMetadata => Some("cache/metadata"),
                Ev::NoBuilds => Some("build"),
                Ev::NoForest => {
                    forest.iter_mut().for_each(|s| s.clear());
                    Some("forest")
                }
                _ => None,
            };
            if let Some(g) = gone {
                let _ = std::fs::remove_dir_all(d.join("home").join(g));
                continue;
            }
            let (new, env) = match ev {
                Ev::Replace => {
                    now = 1 - now;
                    continue;
                }
                Ev::Env(new) => (*new, true),
                Ev::Resolve(new) => (*new, false),
                _ => unreachable!(),
            };
            let got = self.request(&d, &[], &urls[now], if new { LATEST } else { OTHER }, env, None);
            let Got::Fine(v) = got else { return Err(format!("step {i} of {evs:?}: {got:?}")) };
            // what is there after it
            let mut local = wheels[now].clone();
            for e in walk_names(&d.join("home/cache/local-wheels")) {
                for (k, tag) in [("cp311", "cp311"), ("cp310", "cp310"), ("any", "any")] {
                    // only this archive's are interesting
                    if e.ends_with(".whl") && e.contains(k) && e.contains(&key_of(&sdists[now])) {
                        local.insert(tag);
                    }
                }
            }
            if env {
                let at = v["roots"]["pkg"].as_str().unwrap_or("").to_string();
                let tag = if at.contains("-cp311-") { "cp311" } else if at.contains("-cp310-") { "cp310" } else { "any" };
                let which = v["env"]["pkg"].as_str().unwrap_or("").to_string();
                if v["pins"] != json!(["pkg 1.0"]) || !which.starts_with(&format!("{} ", ["one", "two"][now])) || !fits(tag, new) || which.contains("any") != (tag == "any") || (tag != "any" && which.contains(PYTHON) != new) {
                    return Err(format!("step {i} of {evs:?}: installs {which:?} in {at:?}"));
                }
                // the best of what was unpacked, or else of what was kept, or else a new one
                let best = |s: &BTreeSet<&str>| s.iter().filter(|t| fits(t, new)).max_by_key(|t| **t != "any").map(|t| t.to_string());
                let both: BTreeSet<&str> = forest[now].union(&wheels[now]).copied().collect();
                let answers = [best(&both), best(&forest[now]), Some(makes(new).to_string())];
                let least = best(&forest[now]).or(best(&wheels[now]));
                let good = match &least {
                    None => tag == makes(new) || best(&local).as_deref() == Some(tag),
                    Some(l) => answers.iter().flatten().any(|a| a == tag) && (tag != "any" || l == "any"),
                };
                if !good {
                    return Err(format!("step {i} of {evs:?}: installs the wheel {tag}, though it has {:?} unpacked and {:?} kept", forest[now], wheels[now]));
                }
                forest[now].insert(match tag {
                    "cp311" => "cp311",
                    "cp310" => "cp310",
                    _ => "any",
                });
            }
            wheels[now] = local;
        }
        let _ = std::fs::remove_dir_all(&d);
        Ok(())
    }
}

fn walk_names(d: &Path) -> Vec<String> {
    let mut out = vec![];
    let Ok(l) = std::fs::read_dir(d) else { return out };
    for e in l.flatten() {
        if e.file_type().unwrap().is_dir() {
            out.extend(walk_names(&e.path()));
        } else {
            out.push(e.path().to_string_lossy().into_owned());
        }
    }
    out
}

/// where a source archive's wheels are
fn key_of(f: &Served) -> String {
    let h: ArtifactHash = format!("sha256={}", f.hash.as_ref().unwrap()).parse().unwrap();
    let k = crate::kvstore::PathKey::key(&h);
    format!("/{}/", k.to_string_lossy())
}

// ---- at the same time

#[derive(Clone, Copy, PartialEq, Debug)]
enum Do {
    Resolve,
    /// resolve, then install
    Env,
    /// install what was resolved elsewhere
    Lock,
}
use Do::*;

/// (first, second): each (package, what to do); whether both come to a good end
const PAIRS: &[(&str, [(&str, Do); 2], bool)] = &[
    ("the same", [("pkg", Env), ("pkg", Env)], true),
    ("metadata and wheel", [("pkg", Resolve), ("pkg", Env)], true),
    ("metadata twice", [("pkg", Resolve), ("pkg", Resolve)], true),
    ("one needs the other", [("top", Env), ("pkg", Env)], true),
    ("both need it", [("top", Env), ("up", Env)], true),
    ("one needs what the other resolves", [("up", Env), ("pkg", Resolve)], true),
    ("a ring", [("ra", Env), ("rb", Env)], false),
    ("metadata, and the wheel of a lock", [("pkg", Resolve), ("pkg", Lock)], true),
    ("the same lock", [("pkg", Lock), ("pkg", Lock)], true),
    ("one needs what the other locks", [("up", Env), ("pkg", Lock)], true),
];

/// A source archive that needs others for building
fn needy(name: &str, needs: &[&str]) -> Served {
    let py = format!(
        r#"{BACKEND_PY}
def build_wheel(wheel_directory, config_settings=None, metadata_directory=None):
    log("build")
    return wheel(wheel_directory, "{name}", "1.0", "py3-none-any", id="{name}")
"#
    );
    let requires: Vec<String> = needs.iter().map(|n| format!("{n:?}")).collect();
    let toml = format!("[build-system]\nrequires = [{}]\nbuild-backend = \"be\"\nbackend-path = [\".\"]\n", requires.join(", "));
    Served::new(&format!("{name}-1.0.tar.gz"), sdist_bytes(name, "1.0", &[("pyproject.toml", toml), ("be.py", py)]))
}

fn pairs_world(w: &Way) -> BTreeMap<String, Vec<Served>> {
    let mut m = p22_world(pkg_sdist(w, "one"));
    m.insert("top".into(), vec![needy("top", &["pkg"])]);
    m.insert("up".into(), vec![needy("up", &["pkg"])]);
    for (a, b) in [("ra", "rb"), ("rb", "ra")] {
        m.insert(a.into(), vec![needy(a, &[b]), Served::new(&format!("{a}-1.0-py3-none-win_amd64.whl"), wheel_bytes(a, "1.0", "", &[]))]);
    }
    m
}

fn right(what: &str, v: &Value, w: &Way) -> std::result::Result<(), String> {
    match what {
        "pkg" => expect(v, "one", PYTHON, w),
        _ if v["pins"] == json!([format!("{what} 1.0")]) && v["env"][what] == json!(what) => Ok(()),
        _ => Err(format!("it's {v}")),
    }
}

impl Bench22 {
    fn pair(&mut self, rep: &mut Rep, key: &str, w: &Way, which: usize, bound: usize) -> std::result::Result<(), String> {
        let (name, asks, good) = PAIRS[which];
        let url = self.world.set(pairs_world(w));
        let base = self.warm(&url)?;
        // what others have resolved
        let lock_file = base.join("lock");
        if asks.iter().any(|a| a.1 == Lock) {
            let d = self.scratch();
            copy_tree(&base.join("home"), &d.join("home"));
            let got = apart(&d, &[("HARNESS_LOG", d.join("log").to_string_lossy().into_owned())], 20.0, || {
                let (lock, v) = ask(&Home::new(&d.join("home")), &url, &Ask { want: vec!["pkg".into()], python: LATEST.into(), lock: None, env: false })?;
                std::fs::write(&lock_file, serde_json::to_string(&lock).unwrap()).unwrap();
                Ok(v)
            });
            if !matches!(got, Got::Fine(_)) {
                return Err(format!("{name}: resolving elsewhere: {got:?}"));
            }
            let _ = std::fs::remove_dir_all(&d);
        }
        let todo = |what: &str, what_for: Do| match what_for {
            Lock => Ask { lock: Some(serde_json::from_str(&super::sys::quiet(|| std::fs::read_to_string(&lock_file)).unwrap()).unwrap()), env: true, ..Default::default() },
            _ => Ask { want: vec![what.into()], python: LATEST.into(), lock: None, env: what_for == Env },
        };
        // one after the other
        let mut allowed: BTreeMap<String, BTreeSet<Vec<u8>>> = BTreeMap::new();
        for order in [[0, 1], [1, 0]] {
            let d = self.scratch();
            copy_tree(&base.join("home"), &d.join("home"));
            for i in order {
                let (what, env) = asks[i];
                let vars = [("HARNESS_LOG", d.join("log").to_string_lossy().into_owned())];
                match apart(&d, &vars, 20.0, || Ok(ask(&Home::new(&d.join("home")), &url, &todo(what, env))?.1)) {
                    Got::Fine(v) if good => {
                        if env != Resolve {
                            right(what, &v, w).map_err(|m| format!("{name}, one after the other: {m}"))?;
                        }
                    }
                    Got::Failed(_) if !good => (),
                    o => return Err(format!("{name}, one after the other: {o:?}")),
                }
            }
            for (k, v) in kept(&d.join("home")) {
                allowed.entry(k).or_default().insert(v);
            }
            let _ = std::fs::remove_dir_all(&d);
        }
        let mut problem: Option<String> = None;
        let mut ring: Option<String> = None;
        let (mut waits, mut schedules) = (0u64, 0u64);
        let stats = super::sched::explore(bound, 20_000, |prefix| {
            let d = self.scratch();
            copy_tree(&base.join("home"), &d.join("home"));
            let vars = vec![("HARNESS_LOG", d.join("log").to_string_lossy().into_owned())];
            let got = apart(&d, &vars, 60.0, || {
                super::sched::LOCKS_ONLY.store(true, std::sync::atomic::Ordering::Relaxed);
                let results: Vec<std::sync::Arc<std::sync::Mutex<Value>>> = (0..2).map(|_| Default::default()).collect();
                let bodies = asks
                    .iter()
                    .zip(&results)
                    .map(|((what, env), r)| {
                        let (todo, r, url, home) = (todo(what, *env), r.clone(), url.clone(), d.join("home"));
                        Box::new(move || {
                            let home = Home::new(&home);
                            let x = guard(|| ask(&home, &url, &todo));
                            *r.lock().unwrap() = match x {
                                Ok(Ok((_, v))) => json!({"fine": v}),
                                Ok(Err(m)) => json!({"failed": m}),
                                Err(m) => json!({"panic": m}),
                            };
                        }) as super::sched::Body
                    })
                    .collect();
                let x = super::sched::run_one(d.join("home").to_str().unwrap(), bodies, prefix);
                let results: Vec<Value> = results.iter().map(|r| r.lock().unwrap().clone()).collect();
                let points: Vec<Value> = x.points.iter().map(|p| json!([p.enabled, p.running_enabled, p.choice])).collect();
                Ok(json!({"results": results, "points": points, "trace": x.trace, "deadlock": x.deadlock, "diverged": x.diverged}))
            });
            let mut ex = super::sched::Exec { points: vec![], trace: vec![], deadlock: None, diverged: None };
            let Got::Fine(v) = got else {
                problem = Some(format!("{name}: {got:?} after {prefix:?}"));
                return (ex, true);
            };
            for p in v["points"].as_array().unwrap() {
                ex.points.push(super::sched::Point { enabled: p[0].as_u64().unwrap() as usize, running_enabled: p[1].as_bool().unwrap(), choice: p[2].as_u64().unwrap() as usize });
            }
            ex.trace = v["trace"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
            ex.deadlock = v["deadlock"].as_str().map(|s| s.to_string());
            ex.diverged = v["diverged"].as_str().map(|s| s.to_string());
            schedules += 1;
            waits += ex.points.len() as u64;
            if let Some(m) = &ex.deadlock {
                let m = m.replace(d.to_str().unwrap(), "");
                let _ = std::fs::remove_dir_all(&d);
                if !good && m.matches("flock(/home/cache/local-wheels/").count() == 2 {
                    ring.get_or_insert(format!("{name}: each waits for the other's wheel: {m}; schedule {:?}", ex.choices()));
                    ex.deadlock = None;
                    return (ex, false);
                }
                problem = Some(format!("{name}: neither can go on: {m}; schedule {:?}", ex.choices()));
                return (ex, true);
            }
            if ex.diverged.is_some() {
                return (ex, true);
            }
            for (i, (what, env)) in asks.iter().enumerate() {
                let r = &v["results"][i];
                let p = match (r.get("fine"), r.get("failed")) {
                    (Some(v), _) if good => if *env != Resolve { right(what, v, w).err() } else { None },
                    (_, Some(_)) if !good => None,
                    _ => Some(format!("{r}")),
                };
                if let Some(m) = p {
                    problem = Some(format!("{name}: {what} at the same time: {m}; schedule {:?}", ex.choices()));
                    return (ex, true);
                }
            }
            for (k, v) in kept(&d.join("home")) {
                if !allowed.get(&k).map_or(false, |s| s.contains(&v)) {
                    problem = Some(format!("{name}: then {k} is kept with {} bytes; schedule {:?}", v.len(), ex.choices()));
                    return (ex, true);
                }
            }
            let _ = std::fs::remove_dir_all(&d);
            (ex, false)
        });
        rep.traces += schedules;
        rep.transitions += waits;
        let _ = std::fs::remove_dir_all(&base);
        if let Some(m) = problem {
            return Err(m);
        }
        if let Some(m) = stats.diverged {
            return Err(format!("{name}: the run isn't the same the second time: {m}"));
        }
        if stats.capped {
            return Err(format!("{name}: too many schedules"));
        }
        if let Some(m) = ring {
            rep.violation(format!("{key} each waits for the other"), m);
        }
        rep.outcome(if good { "right at the same time" } else { "failed at the same time, as they should" });
        Ok(())
    }
}

#[derive(Debug)]
enum C22 {
    Crash(Way, Part, bool, (usize, usize)),
    Flaky(Way, &'static str, bool),
    History(Tags, bool, Vec<Ev>),
    Pair(Way, usize),
}

pub fn p22(mut ctx: Ctx) -> i32 {
    ctx.hang_secs = 800;
    ctx.unprivileged = true;
    let thorough = ctx.thorough();
    let mut cases = vec![];
    let only = std::env::var("VERIF_ONLY").unwrap_or_default();
    let on = |k: &str| only.is_empty() || only == k;
    for w in ways() {
        for i in 0..PAIRS.len() {
            // only where it's about it
            let about = PAIRS[i].1.iter().any(|a| !a.0.starts_with('r'));
            if on("pair") && (about && (thorough || w == ways()[1] && (i == 1 || i == 3 || i == 7)) || w == ways()[0]) {
                cases.push(C22::Pair(w, i));
            }
        }
        for env in [true, false] {
            for part in [Part::Posy, Part::Python, Part::Apart] {
                // for every change: two of the ways, and resolving alone only for one
                let quick = w == ways()[0] && (env || part != Part::Apart) || w == ways()[1] && env && part != Part::Apart;
                if !on("crash") || !(thorough || quick) {
                    continue;
                }
                let m = if part == Part::Python { 4 } else { 12 };
                cases.extend((0..m).map(|i| C22::Crash(w, part, env, (i, m))));
            }
            for how in ["raise", "exit", "kill"] {
                if on("flaky") && (thorough || w != ways()[3]) {
                    cases.push(C22::Flaky(w, how, env));
                }
            }
        }
    }
    if on("history") {
        for t in [Tags::Pure, Tags::Own, Tags::Mixed] {
            for prepares in [true, false] {
                for a in EVS {
                    for b in EVS {
                        if matches!(a, Ev::Env(_) | Ev::Resolve(_)) {
                            cases.push(C22::History(t, prepares, vec![a, b]));
                        }
                    }
                }
            }
        }
    }
    let bound = if thorough { 2 } else { 1 };
    ctx.run_cases(&cases, |c| format!("{c:?}"), |case, rep, dir| {
        let key = format!("{case:?}");
        rep.states += 1;
        rep.case(&key, true);
        let mut b = Bench22 { world: World::start(), dir: dir.to_path_buf(), n: 0 };
        let r = match case {
            C22::Crash(w, part, env, share) => b.crash(rep, thorough, w, *part, *env, *share),
            C22::Flaky(w, how, env) => b.flaky(rep, w, how, *env),
            C22::Pair(w, i) => b.pair(rep, &key, w, *i, bound),
            C22::History(t, prepares, first) => (|| {
                let sdists = [history_sdist(*t, *prepares, "one"), history_sdist(*t, *prepares, "two")];
                let urls: Vec<Url> = sdists.iter().map(|s| b.world.keep(p22_world(s.clone()))).collect();
                let base = b.warm(&urls[0])?;
                // what follows the first two: anything, then an installation
                let depth = if thorough { 5 } else { 4 } - !(*prepares && *t != Tags::Pure) as usize;
                let rest = depth - first.len() - 1;
                let mut tails: Vec<Vec<Ev>> = vec![vec![]];
                for _ in 0..rest {
                    tails = tails.iter().flat_map(|t| EVS.iter().map(move |e| [t.clone(), vec![*e]].concat())).collect();
                }
                for t0 in tails {
                    for last in [Ev::Env(true), Ev::Env(false)] {
                        let evs = [first.clone(), t0.clone(), vec![last]].concat();
                        // removals can be swapped
                        let free = |e: &Ev| !matches!(e, Ev::Env(_) | Ev::Resolve(_));
                        if evs.windows(2).any(|w| free(&w[0]) && free(&w[1]) && w[0] >= w[1]) {
                            continue;
                        }
                        rep.transitions += evs.len() as u64;
                        b.history(&base, &sdists, &urls, *t, &evs)?;
                        rep.outcome("a history of installations");
                    }
                }
                let _ = std::fs::remove_dir_all(&base);
                Ok(())
            })(),
        };
        if let Err(m) = r {
            rep.violation(key, m);
        }
    });
    cases.clear();
    finish(ctx, Level {
        level: "model_checking",
        rule: "every file operation of posy and of its build frontend while resolving for, or installing, a package from source is made to fail (process dies, torn write, ENOSPC, EIO; with the wheel cache on another file system too), then it's asked for again; backends failing at each subset of the first four hook calls in three ways; all histories of 3 or 4 (thorough 4 or 5) installations, resolutions, removals of each kind of kept data, with two pythons and replaced archives; all schedules of two requests with one (thorough two) preemptions at the locks",
        assumptions: &["as for P21", "a lost machine isn't considered for what backends write", "two pythons, two archives of one version"],
    })
}
