//! P15: environments are made of what the lock lists.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

use serde_json::json;

use super::archive::{self, Z};
use super::core::*;
use super::p_build as pb;
use super::world::*;
use crate::prelude::*;
use crate::resolve::*;

const PYTHON: &str = "3.11.2";

/// how a file stands in index and lock
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum St {
    /// in both
    Good,
    /// the lock doesn't know it
    Unlocked,
    /// the index doesn't tell its hash
    NoHash,
    /// the index has another hash than the lock; the file is the index's
    Replaced,
    /// both agree, but the file is another
    Altered,
    /// the index has another hash, the file is the lock's
    Mislabelled,
}
use St::*;
const STATES: [St; 6] = [Good, Unlocked, NoHash, Replaced, Altered, Mislabelled];

impl St {
    /// is it listed by the lock, going by the index?
    fn listed(self) -> bool {
        matches!(self, Good | Altered)
    }
}

/// The file for the index, and the lock's hash
fn stand(name: &str, bytes: Vec<u8>, other: Vec<u8>, st: St) -> (Served, Option<String>) {
    let mut f = Served::new(name, bytes);
    let right = f.hash.clone().unwrap();
    match st {
        Good => (f, Some(right)),
        Unlocked => (f, None),
        NoHash => {
            f.hash = None;
            (f, Some(right))
        }
        Replaced => (Served::new(name, other), Some(right)),
        Altered => {
            let mut g = Served::new(name, other);
            g.hash = Some(right.clone());
            (g, Some(right))
        }
        Mislabelled => {
            f.hash = Some(sha256(&other));
            (f, Some(right))
        }
    }
}

fn interpreter(tag: &str, id: &str) -> Vec<u8> {
    pybi_bytes("cpython", PYTHON, PYTHON, &["cp311-cp311-PLATFORM", "cp311-abi3-PLATFORM", "py3-none-PLATFORM", "py3-none-any"], &[
        Z::file("lib/std/site.py", "x = 1\nENABLE_USER_SITE = None\n"),
        Z::file("lib/std/os.py", ""),
        Z::dir("lib/site/"),
        Z::exe("bin/python", format!("#!/bin/sh\necho {tag} {id}\n")),
    ])
}

fn hashes(l: impl IntoIterator<Item = String>) -> Vec<ArtifactHash> {
    l.into_iter().map(|h| format!("sha256={h}").parse().unwrap()).collect()
}

fn pin(name: &str, version: &str, l: impl IntoIterator<Item = String>) -> PinnedPackage {
    PinnedPackage { name: name.parse().unwrap(), version: version.parse().unwrap(), hashes: hashes(l) }
}

#[derive(Clone, Debug, PartialEq)]
struct Md {
    requires: Vec<&'static str>,
    python: &'static str,
    extras: Vec<&'static str>,
}

impl Md {
    fn none() -> Md {
        Md { requires: vec![], python: "", extras: vec![] }
    }
    fn text(&self) -> String {
        let mut s = String::new();
        for r in &self.requires {
            s += &format!("Requires-Dist: {r}\n");
        }
        for e in &self.extras {
            s += &format!("Provides-Extra: {e}\n");
        }
        if !self.python.is_empty() {
            s += &format!("Requires-Python: {}\n", self.python);
        }
        s
    }
    fn locked(&self) -> WheelResolveMetadata {
        WheelResolveMetadata {
            provenance: "the lock".into(),
            inner: WheelResolveMetadataInner {
                requires_dist: self.requires.iter().map(|s| s.parse().unwrap()).collect(),
                requires_python: if self.python.is_empty() { Default::default() } else { self.python.parse().unwrap() },
                extras: self.extras.iter().map(|s| s.parse().unwrap()).collect(),
            },
        }
    }
}

fn wheel_id(id: &str, version: &str, md: &Md) -> Vec<u8> {
    wheel_bytes("pkg", version, &md.text(), &[Z::file("which.txt", id)])
}

/// wheel tags and their rank for the interpreter above on manylinux_2_17_x86_64; none: don't fit
const WHEELS: &[(&str, Option<u32>)] = &[
    ("cp311-cp311-manylinux_2_17_x86_64", Some(0)),
    ("cp311-cp311-manylinux1_x86_64", Some(1)),
    ("cp311-abi3-manylinux_2_17_x86_64", Some(2)),
    ("py3-none-manylinux_2_12_x86_64", Some(3)),
    ("py3-none-any", Some(4)),
    ("cp310.py2-none-manylinux_2_17_x86_64", None),
    ("cp311-cp311-manylinux_2_28_x86_64", None),
    ("cp311-cp311-win_amd64", None),
    // the best part counts
    ("cp310.cp311-abi3.cp311-manylinux_2_28_x86_64.manylinux2010_x86_64", Some(1)),
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Sd {
    No,
    Unlocked,
    /// locked, but isn't what it should be
    Bad,
}

struct Bench {
    world: World,
    n: usize,
    made: BTreeMap<String, Vec<u8>>,
}

type Got = std::result::Result<crate::env::Env, String>;

impl Bench {
    fn made(&mut self, key: String, f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
        self.made.entry(key).or_insert_with(f).clone()
    }

    fn home(&mut self, dir: &Path) -> (Home, std::path::PathBuf) {
        self.n += 1;
        let d = dir.join(format!("h{}", self.n));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir(&d).unwrap();
        (Home::new(&d), d)
    }

    fn get(&self, home: &Home, url: &Url, lock: &Blueprint, platforms: &[&str]) -> std::result::Result<Got, String> {
        let platforms: Vec<PybiPlatform> = platforms.iter().map(|p| PybiPlatform::new(p)).collect();
        let refs: Vec<&PybiPlatform> = platforms.iter().collect();
        guard(|| home.db(&[url.clone()]).and_then(|db| home.forest.get_env(&db, lock, &refs, &[])).map_err(|e| format!("{e:#}")))
    }

    /// which wheel of these (kind, state) does it take?
    fn wheels(&mut self, dir: &Path, files: &[(usize, St)], sdist: Sd, turn: usize) -> std::result::Result<&'static str, String> {
        let py = self.made("python".into(), || interpreter("m17", "good"));
        let python = Served::new(&format!("cpython-{PYTHON}-manylinux_2_17_x86_64.pybi"), py);
        let mut rows = vec![];
        let mut locked = vec![];
        // a decoy: another version, as good as any, even listed
        let decoy = Served::new("pkg-2.0-cp311-cp311-manylinux_2_17_x86_64.whl", self.made("decoy".into(), || wheel_id("decoy", "2.0", &Md::none())));
        locked.extend(decoy.hash.clone());
        rows.push(decoy);
        for (k, st) in files {
            let good = self.made(format!("w{k}"), || wheel_id(&format!("good{k}"), "1.0", &Md::none()));
            let bad = self.made(format!("b{k}"), || wheel_id(&format!("bad{k}"), "1.0", &Md::none()));
            let (f, h) = stand(&format!("pkg-1.0-{}.whl", WHEELS[*k].0), good, bad, *st);
            rows.push(f);
            locked.extend(h);
        }
        if sdist != Sd::No {
            let (mut f, h) = stand("pkg-1.0.tar.gz", b"not what it should be".to_vec(), vec![], if sdist == Sd::Bad { Good } else { Unlocked });
            if sdist == Sd::Bad {
                // the right hash, but never the right contents
                f.bytes = std::sync::Arc::new(b"something else".to_vec());
            }
            rows.push(f);
            locked.extend(h);
        }
        let n = rows.len();
        rows.rotate_left(turn % n);
        let k = locked.len().max(1);
        locked.rotate_left(turn / 2 % k);
        let lock = Blueprint { pybi: pin("cpython", PYTHON, python.hash.clone()), wheels: vec![(pin("pkg", "1.0", locked), Md::none().locked())], marker_expressions: Default::default() };
        let url = self.world.set([("cpython".to_string(), vec![python]), ("pkg".into(), rows)].into_iter().collect());
        self.world.origin.take_log();
        let (home, d) = self.home(dir);
        let got = self.get(&home, &url, &lock, &["manylinux_2_17_x86_64"])?;
        let asked: Vec<String> = self.world.origin.take_log().iter().map(|r| r.path.clone()).collect();
        let best = files.iter().filter(|(k, st)| st.listed() && WHEELS[*k].1.is_some()).map(|(k, _)| WHEELS[*k].1.unwrap()).min();
        let bests: Vec<&(usize, St)> = files.iter().filter(|(k, st)| st.listed() && WHEELS[*k].1 == best && best.is_some()).collect();
        let out = match (&got, best) {
            (Ok(e), Some(_)) => {
                let [lib] = &e.lib_dirs[..] else { return Err(format!("has the directories {:?}", e.lib_dirs)) };
                let which = std::fs::read_to_string(lib.join("which.txt")).map_err(|e| e.to_string())?;
                if !bests.iter().any(|(k, st)| *st == Good && which == format!("good{k}")) {
                    return Err(format!("installs {which}, not {bests:?}"));
                }
                Ok("the best wheel")
            }
            (Ok(e), None) => Err(format!("nothing is listed and fits, still it has {:?}", std::fs::read_to_string(e.lib_dirs[0].join("which.txt")))),
            (Err(_), Some(_)) if bests.iter().any(|b| b.1 == Altered) => Ok("refuses altered"),
            (Err(m), Some(_)) => Err(format!("doesn't install {bests:?}: {m}")),
            (Err(_), None) => Ok(if sdist == Sd::Bad { "refuses the bad sdist" } else { "nothing fits" }),
        };
        let took_sdist = asked.iter().any(|p| p.ends_with(".tar.gz"));
        if took_sdist && (best.is_some() || sdist == Sd::Unlocked) {
            return Err(format!("fetches the source archive, which is {sdist:?}, the best wheel being {best:?}"));
        }
        if !took_sdist && best.is_none() && sdist == Sd::Bad {
            return Err(format!("doesn't even try the source archive: {:?}", got.err()));
        }
        if let Some(p) = asked.iter().find(|p| p.contains("2.0")) {
            return Err(format!("asks for {p}"));
        }
        let _ = std::fs::remove_dir_all(d);
        out
    }

    fn pythons(&mut self, dir: &Path, files: &[(usize, St)], platforms: &[usize], turn: usize) -> std::result::Result<&'static str, String> {
        let mut rows = vec![];
        let mut locked = vec![];
        for (t, st) in files {
            let (tag, _) = PYBIS[*t];
            let good = self.made(format!("p{t}"), || interpreter(tag, "good"));
            let bad = self.made(format!("q{t}"), || interpreter(tag, "bad"));
            let (f, h) = stand(&format!("cpython-{PYTHON}-{tag}.pybi"), good, bad, *st);
            rows.push(f);
            locked.extend(h);
        }
        rows.rotate_left(turn % files.len().max(1));
        let mut wheels = vec![];
        for (w, tag) in PLATFORM_WHEELS.iter().enumerate() {
            wheels.push(Served::new(&format!("pkg-1.0-{tag}.whl"), self.made(format!("pw{w}"), || wheel_id(tag, "1.0", &Md::none()))));
        }
        let lock = Blueprint { pybi: pin("cpython", PYTHON, locked), wheels: vec![(pin("pkg", "1.0", wheels.iter().filter_map(|w| w.hash.clone())), Md::none().locked())], marker_expressions: Default::default() };
        let url = self.world.set([("cpython".to_string(), rows), ("pkg".into(), wheels)].into_iter().collect());
        let (home, d) = self.home(dir);
        let names: Vec<&str> = platforms.iter().map(|p| PLATFORMS[*p].0).collect();
        let got = self.get(&home, &url, &lock, &names)?;
        // the first platform that a listed one fits, and its best
        let want = platforms.iter().find_map(|p| PLATFORMS[*p].1.iter().find_map(|t| files.iter().find(|f| f.0 == *t && f.1.listed())).map(|f| (*p, f)));
        let out = match (&got, want) {
            (Err(_), None) => Ok("no interpreter"),
            (Err(_), Some((_, (_, Altered)))) => Ok("altered interpreter"),
            (Err(m), Some(w)) => Err(format!("doesn't take {w:?}: {m}")),
            (Ok(e), w) => {
                let Some((p, (t, st))) = w else { return Err(format!("takes {:?}", e.python)) };
                let text = std::fs::read_to_string(&e.python).map_err(|e| e.to_string())?;
                if *st != Good || !text.contains(&format!("echo {} good\n", PYBIS[*t].0)) {
                    return Err(format!("takes {text:?}, not {t:?} {st:?}"));
                }
                if e.platform_core_tag != PLATFORMS[p].0 {
                    return Err(format!("says its platform is {}, not {}", e.platform_core_tag, PLATFORMS[p].0));
                }
                let which = std::fs::read_to_string(e.lib_dirs[0].join("which.txt")).map_err(|e| e.to_string())?;
                if which != PLATFORM_WHEELS[PLATFORMS[p].2] {
                    return Err(format!("takes the wheel for {which} instead of {} on {}", PLATFORM_WHEELS[PLATFORMS[p].2], PLATFORMS[p].0));
                }
                if !e.wheel_platform.max_compatibility([&PLATFORM_WHEELS[PLATFORMS[p].2].to_string()].into_iter()).is_some() {
                    return Err("its wheel platform doesn't take its wheel".into());
                }
                Ok("interpreter")
            }
        };
        let _ = std::fs::remove_dir_all(d);
        out
    }
}

const PYBIS: &[(&str, ())] = &[("manylinux_2_17_x86_64", ()), ("manylinux_2_28_x86_64", ()), ("manylinux_2_12_x86_64", ()), ("musllinux_1_1_x86_64", ()), ("win_amd64", ()), ("macosx_11_0_arm64", ())];
/// platform, interpreters best first, wheel
const PLATFORMS: &[(&str, &[usize], usize)] = &[
    ("manylinux_2_30_x86_64", &[1, 0, 2], 0),
    ("manylinux_2_17_x86_64", &[0, 2], 1),
    ("musllinux_1_2_x86_64", &[3], 2),
    ("win_amd64", &[4], 4),
    ("macosx_12_0_arm64", &[5], 3),
];
const PLATFORM_WHEELS: &[&str] = &["cp311-cp311-manylinux_2_30_x86_64", "cp311-abi3-manylinux2014_x86_64", "py3-none-musllinux_1_1_x86_64", "cp311-cp311-macosx_10_9_universal2", "cp311-cp311-win_amd64", "py3-none-any"];
const LISTS: &[&[usize]] = &[&[0], &[1], &[2, 0], &[0, 2], &[3, 1], &[4, 3, 2], &[1, 0], &[2], &[], &[0, 1, 2, 3, 4], &[4, 3, 2, 1]];

fn mds() -> Vec<Md> {
    let m = |requires: &[&'static str], python, extras: &[&'static str]| Md { requires: requires.to_vec(), python, extras: extras.to_vec() };
    vec![
        m(&[], "", &[]),
        m(&["q"], "", &[]),
        m(&["q >= 1"], "", &[]),
        m(&["q >= 2"], "", &[]),
        m(&["q >= 1; extra == \"x\""], "", &["x"]),
        m(&["q >= 1; extra == \"x\""], "", &["x", "y"]),
        m(&["q >= 1"], ">=3.8", &[]),
        m(&["q >= 1", "r"], ">=3.8", &[]),
        m(&["q >= 1", "r"], ">=3.9", &[]),
        m(&[], ">=3.8", &[]),
        m(&[], "", &["x"]),
        m(&["q[x] >= 1", "r; os_name == \"posix\""], "", &[]),
        m(&["q[x] >= 1", "r; os_name == \"nt\""], "", &[]),
        m(&["q[y] >= 1", "r; os_name == \"nt\""], "", &[]),
        m(&["q >= 1, < 2"], "", &[]),
    ]
}

#[derive(Clone, Debug)]
enum C15 {
    Wheels(Vec<usize>, Sd),
    Pythons(Vec<usize>),
    /// what the lock says
    Metadata(usize),
    /// sequences of steps
    History(usize, usize),
    /// packages
    Several(usize),
    /// a fault at each file operation, then again
    Interrupted(pb::How, (usize, usize)),
    /// two at the same time, of these packages; the points are locks only
    Together([&'static [usize]; 2], bool),
}

/// A step of a history
#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    /// install from a lock listing wheel 0, 1, both
    Get(u8),
    /// from a lock with other metadata
    GetOther,
    /// the index no longer has / has again wheel n
    Drop(usize),
    Back(usize),
    /// wheel n's contents are altered, and right again
    Spoil(usize),
    Mend(usize),
    /// forget the downloads, not the environments
    Forget,
    /// the index has another hash for wheel n
    Relabel(usize),
}

const STEPS: &[Step] = &[Step::Get(1), Step::Get(2), Step::Get(3), Step::GetOther, Step::Drop(0), Step::Back(0), Step::Spoil(0), Step::Mend(0), Step::Spoil(1), Step::Drop(1), Step::Forget, Step::Relabel(0)];

fn history(b: &mut Bench, dir: &Path, steps: &[Step]) -> std::result::Result<usize, String> {
    let py = b.made("python".into(), || interpreter("m17", "good"));
    let python = Served::new(&format!("cpython-{PYTHON}-manylinux_2_17_x86_64.pybi"), py);
    let names = ["pkg-1.0-cp311-cp311-manylinux_2_17_x86_64.whl", "pkg-1.0-py3-none-any.whl"];
    let good: Vec<Vec<u8>> = (0..2).map(|i| b.made(format!("h{i}"), || wheel_id(&format!("good{i}"), "1.0", &Md::none()))).collect();
    let bad: Vec<Vec<u8>> = (0..2).map(|i| b.made(format!("g{i}"), || wheel_id(&format!("bad{i}"), "1.0", &Md::none()))).collect();
    let (home, d) = b.home(dir);
    let mut there = [true; 2];
    let mut spoilt = [false; 2];
    let mut relabelled = [false; 2];
    let mut unpacked: [bool; 2] = [false; 2];
    let mut cached: [bool; 2] = [false; 2];
    let mut gets = 0;
    for (n, step) in steps.iter().enumerate() {
        let (which, other) = match step {
            Step::Get(w) => (*w, false),
            Step::GetOther => (3, true),
            Step::Drop(i) => {
                there[*i] = false;
                continue;
            }
            Step::Back(i) => {
                there[*i] = true;
                relabelled[*i] = false;
                continue;
            }
            Step::Spoil(i) => {
                spoilt[*i] = true;
                continue;
            }
            Step::Mend(i) => {
                spoilt[*i] = false;
                continue;
            }
            Step::Relabel(i) => {
                relabelled[*i] = true;
                continue;
            }
            Step::Forget => {
                let _ = std::fs::remove_dir_all(&home.cache);
                cached = [false; 2];
                continue;
            }
        };
        gets += 1;
        let mut rows = vec![];
        for i in 0..2 {
            if there[i] {
                let mut f = Served::new(names[i], if spoilt[i] { bad[i].clone() } else { good[i].clone() });
                f.hash = Some(sha256(if relabelled[i] { &bad[i] } else { &good[i] }));
                rows.push(f);
            }
        }
        let url = b.world.set([("cpython".to_string(), vec![python.clone()]), ("pkg".into(), rows)].into_iter().collect());
        let locked = (0..2).filter(|i| which & (1 << i) != 0).map(|i| sha256(&good[i]));
        let md = Md { requires: if other { vec!["q"] } else { vec![] }, ..Md::none() };
        let lock = Blueprint { pybi: pin("cpython", PYTHON, python.hash.clone()), wheels: vec![(pin("pkg", "1.0", locked), md.locked())], marker_expressions: Default::default() };
        let got = b.get(&home, &url, &lock, &["manylinux_2_17_x86_64"])?;
        let choice = (0..2).find(|i| which & (1 << i) != 0 && there[*i] && !relabelled[*i]);
        let fits = choice.map_or(false, |i| unpacked[i] || cached[i] || !spoilt[i]);
        if let (Some(i), true) = (choice, fits) {
            unpacked[i] = true;
            cached[i] = true;
        }
        match (got, fits && !other) {
            (Ok(e), true) => {
                let w = std::fs::read_to_string(e.lib_dirs[0].join("which.txt")).map_err(|e| e.to_string())?;
                if w != format!("good{}", choice.unwrap()) {
                    return Err(format!("step {n} installs {w} instead of {choice:?}"));
                }
            }
            (Err(_), false) => (),
            (Ok(e), false) => return Err(format!("step {n} makes an environment with {:?} instead of failing", std::fs::read_to_string(e.lib_dirs[0].join("which.txt")))),
            (Err(m), true) => return Err(format!("step {n} fails: {m}")),
        }
    }
    let _ = std::fs::remove_dir_all(d);
    Ok(gets)
}

const MORE: &[&str] = &["alpha", "Beta.b", "gamma-g", "delta"];

fn several(b: &mut Bench, dir: &Path, list: &[usize], rep: &mut Rep) -> std::result::Result<&'static str, String> {
    let py = b.made("python".into(), || interpreter("m17", "good"));
    let python = Served::new(&format!("cpython-{PYTHON}-manylinux_2_17_x86_64.pybi"), py);
    let mut projects = BTreeMap::from([("cpython".to_string(), vec![python.clone()])]);
    let mut wheels = vec![];
    for (i, name) in MORE.iter().enumerate() {
        let file = name.replace(['-', '.'], "_");
        let bytes = b.made(format!("m{i}"), || {
            archive::zip(&[
                Z::file(&format!("{file}-1.0.dist-info/WHEEL"), format!("Wheel-Version: 1.0\nRoot-Is-Purelib: {}\n", i % 2 == 0)),
                Z::file(&format!("{file}-1.0.dist-info/METADATA"), format!("Metadata-Version: 2.1\nName: {name}\nVersion: 1.0\nSummary: s{i}\n")),
                Z::file(&format!("{file}-1.0.dist-info/entry_points.txt"), format!("[console_scripts]\ncmd{i} = mod{i}:main\n")),
                Z::file(&format!("mod{i}.py"), format!("def main(): return {i}\n")),
                Z::file(&format!("{file}-1.0.data/purelib/pure{i}.py"), ""),
                Z::file(&format!("{file}-1.0.data/platlib/plat{i}.py"), ""),
                Z::file(&format!("{file}-1.0.data/data/share/d{i}"), ""),
                Z::file(&format!("{file}-1.0.data/headers/h{i}.h"), ""),
                Z::file(&format!("{file}-1.0.data/scripts/s{i}"), "#!/bin/sh\n"),
            ])
        });
        let f = Served::new(&format!("{file}-1.0-py3-none-any.whl"), bytes);
        projects.insert(name.to_lowercase().replace('.', "-"), vec![f.clone()]);
        if list.contains(&i) {
            wheels.push((i, pin(name, "1.0", f.hash.clone())));
        }
    }
    wheels.sort_by_key(|w| list.iter().position(|l| *l == w.0));
    let lock = Blueprint { pybi: pin("cpython", PYTHON, python.hash.clone()), wheels: wheels.into_iter().map(|w| (w.1, Md::none().locked())).collect(), marker_expressions: Default::default() };
    let url = b.world.set(projects);
    let (home, d) = b.home(dir);
    let e = b.get(&home, &url, &lock, &["manylinux_2_17_x86_64"])??;
    if e.lib_dirs.len() != list.len() || e.bin_dirs.len() != list.len() + 1 {
        return Err(format!("has {:?} and {:?}", e.lib_dirs, e.bin_dirs));
    }
    for (n, i) in list.iter().enumerate() {
        for f in [format!("mod{i}.py"), format!("pure{i}.py"), format!("plat{i}.py")] {
            if !e.lib_dirs[n].join(&f).is_file() {
                return Err(format!("no {f} in {:?}", e.lib_dirs[n]));
            }
        }
        for f in [format!("cmd{i}"), format!("s{i}")] {
            if !e.bin_dirs[n + 1].join(&f).is_file() {
                return Err(format!("no {f} in {:?}", e.bin_dirs[n + 1]));
            }
        }
    }
    // the interpreter has been told to leave things alone
    let root = e.python.parent().unwrap().parent().unwrap().to_path_buf();
    if e.bin_dirs[0] != root.join("bin") || e.pythonw != e.python {
        return Err(format!("programs: {:?}, {:?}", e.bin_dirs[0], e.pythonw));
    }
    let site = std::fs::read_to_string(root.join("lib/std/site.py")).map_err(|e| e.to_string())?;
    if site != "x = 1\nENABLE_USER_SITE = False\n" {
        return Err(format!("site.py is {site:?}"));
    }
    if !std::fs::read_to_string(root.join("lib/std/EXTERNALLY-MANAGED")).map_or(false, |s| s.contains("[externally-managed]\nError=")) {
        return Err("isn't marked as externally managed".into());
    }
    // run python with it, somewhere with other modules and a .pth file
    let cwd = d.join("cwd");
    std::fs::create_dir(&cwd).unwrap();
    std::fs::write(cwd.join("stray.py"), "").unwrap();
    std::fs::write(cwd.join("stray.pth"), "import os; print('stray')\n").unwrap();
    let vars: Vec<(&str, std::ffi::OsString)> = guard(|| e.env_vars().map(|v| v.into_iter().collect::<Vec<_>>()).map_err(|e| e.to_string()))??;
    let path = vars.iter().find(|v| v.0 == "PATH").map(|v| v.1.clone()).ok_or("no PATH")?;
    let mut want: Vec<std::path::PathBuf> = e.bin_dirs.clone();
    want.extend(std::env::split_paths(&std::env::var_os("PATH").unwrap()));
    if std::env::split_paths(&path).collect::<Vec<_>>() != want {
        return Err(format!("PATH is {path:?}"));
    }
    for (k, w) in [("POSY_PYTHON", &e.python), ("POSY_PYTHONW", &e.pythonw)] {
        if vars.iter().find(|v| v.0 == k).map(|v| v.1.clone()) != Some(w.clone().into_os_string()) {
            return Err(format!("{k} is wrong: {vars:?}"));
        }
    }
    let run = |posy: bool| {
        let mut c = std::process::Command::new("/usr/bin/python3");
        c.args(["-P", "-s", "-c", "import sys; print(chr(10).join(sys.path))"]).current_dir(&cwd).env_clear().env("PYTHONPATH", root.join("lib/site")).env("PYTHONDONTWRITEBYTECODE", "1").env("LC_ALL", "C.UTF-8");
        if posy {
            c.envs(vars.iter().filter(|v| v.0 != "PATH").cloned());
        }
        c.output().map(|o| (String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect::<Vec<_>>(), String::from_utf8_lossy(&o.stderr).into_owned(), o.status.success()))
    };
    let (plain, warning, _) = run(false).map_err(|e| e.to_string())?;
    let (with, err, ok) = run(true).map_err(|e| e.to_string())?;
    rep.traces += 2;
    if !ok || !err.is_empty() {
        return Err(format!("python says {err}"));
    }
    if !warning.contains("managed by") {
        return Err("python doesn't say that it's managed by posy".into());
    }
    // (what isn't a directory or an archive has no modules)
    let with: Vec<String> = with.into_iter().filter(|p| plain.contains(p) || Path::new(p).is_dir() || Path::new(p).is_file()).collect();
    let more: Vec<&String> = with.iter().filter(|p| !plain.contains(p)).collect();
    let libs: Vec<String> = e.lib_dirs.iter().map(|p| p.to_string_lossy().into_owned()).collect();
    if more.iter().map(|s| &s[..]).collect::<Vec<_>>() != libs || with.len() != plain.len() + libs.len() {
        return Err(format!("python's path has {more:?} instead of {libs:?}"));
    }
    let _ = std::fs::remove_dir_all(d);
    Ok("environment")
}

/// Two packages with programs, and their locks
fn small(b: &mut Bench) -> (Url, impl Fn(&[usize]) -> Blueprint) {
    let py = b.made("python".into(), || interpreter("m17", "good"));
    let python = Served::new(&format!("cpython-{PYTHON}-manylinux_2_17_x86_64.pybi"), py);
    let mut projects = BTreeMap::from([("cpython".to_string(), vec![python.clone()])]);
    let mut pins = vec![];
    for i in 0..2 {
        let name = format!("p{i}");
        let f = Served::new(
            &format!("{name}-1.0-py3-none-any.whl"),
            archive::zip(&[
                Z::file(&format!("{name}-1.0.dist-info/WHEEL"), "Wheel-Version: 1.0\nRoot-Is-Purelib: true\n"),
                Z::file(&format!("{name}-1.0.dist-info/METADATA"), format!("Metadata-Version: 2.1\nName: {name}\nVersion: 1.0\nSummary: s{i}\n")),
                Z::file(&format!("{name}-1.0.dist-info/entry_points.txt"), format!("[console_scripts]\ncmd{i} = mod{i}:main\n")),
                Z::file(&format!("mod{i}.py"), format!("def main(): return {i}\n")),
                Z::file(&format!("{name}-1.0.data/scripts/s{i}"), "#!python\n"),
            ]),
        );
        pins.push(pin(&name, "1.0", f.hash.clone()));
        projects.insert(name, vec![f]);
    }
    let url = b.world.set(projects);
    let hash = python.hash.clone();
    (url, move |list: &[usize]| Blueprint { pybi: pin("cpython", PYTHON, hash.clone()), wheels: list.iter().map(|i| (pins[*i].clone(), Md::none().locked())).collect(), marker_expressions: Default::default() })
}

/// All there is in an environment, its files by where they are from the home.
fn contents(home: &Path, e: &crate::env::Env) -> serde_json::Value {
    use std::os::unix::fs::PermissionsExt;
    fn walk(at: &Path, name: String, out: &mut BTreeMap<String, String>) {
        let Ok(l) = std::fs::read_dir(at) else {
            out.insert(name, "(missing)".into());
            return;
        };
        for f in l.flatten() {
            let n = format!("{name}/{}", f.file_name().to_string_lossy());
            let t = f.file_type().unwrap();
            if t.is_dir() {
                out.insert(n.clone(), "directory".into());
                walk(&f.path(), n, out);
            } else if t.is_symlink() {
                out.insert(n, format!("-> {:?}", std::fs::read_link(f.path())));
            } else {
                let exe = f.metadata().unwrap().permissions().mode() & 0o111 != 0;
                let mut bytes = std::fs::read(f.path()).unwrap();
                // Windows launchers carry an archive, which knows when it was made
                if let (true, Ok(mut z)) = (n.ends_with(".exe"), zip::ZipArchive::new(std::io::Cursor::new(bytes.clone()))) {
                    let mut plain = bytes[..z.offset() as usize].to_vec();
                    for i in 0..z.len() {
                        let mut f = z.by_index(i).unwrap();
                        plain.extend(f.name().as_bytes());
                        if std::io::Read::read_to_end(&mut f, &mut plain).is_err() {
                            plain.extend(b"(broken)");
                        }
                    }
                    bytes = plain;
                }
                out.insert(n, format!("{}{}", if exe { "x " } else { "" }, sha256(&bytes)));
            }
        }
    }
    super::sys::quiet(|| {
        let rel = |p: &Path| p.strip_prefix(home).map_or_else(|_| format!("outside: {p:?}"), |p| p.to_string_lossy().into_owned());
        let mut files = BTreeMap::new();
        let mut roots = vec![e.python.parent().unwrap().parent().unwrap()];
        roots.extend(e.lib_dirs.iter().map(|l| l.parent().unwrap()));
        for r in roots {
            walk(r, rel(r), &mut files);
        }
        json!({
            "python": rel(&e.python), "pythonw": rel(&e.pythonw),
            "bin": e.bin_dirs.iter().map(|d| rel(d)).collect::<Vec<_>>(),
            "lib": e.lib_dirs.iter().map(|d| rel(d)).collect::<Vec<_>>(),
            "files": files,
        })
    })
}

fn install(d: &Path, url: &Url, lock: &Blueprint) -> std::result::Result<serde_json::Value, String> {
    let home = Home::new(d);
    let platform = PybiPlatform::new("manylinux_2_17_x86_64");
    let db = home.db(&[url.clone()]).map_err(|e| format!("{e:#}"))?;
    let e = home.forest.get_env(&db, lock, &[&platform], &[]).map_err(|e| format!("{e:#}"))?;
    Ok(contents(d, &e))
}

fn first_difference(a: &serde_json::Value, b: &serde_json::Value) -> String {
    for k in ["python", "pythonw", "bin", "lib"] {
        if a[k] != b[k] {
            return format!("{k} is {} instead of {}", b[k], a[k]);
        }
    }
    let (x, y) = (a["files"].as_object().unwrap(), b["files"].as_object().unwrap());
    for (k, v) in x {
        match y.get(k) {
            None => return format!("{k} is missing"),
            Some(w) if v != w => return format!("{k} is {w} instead of {v}"),
            _ => (),
        }
    }
    y.keys().find(|k| !x.contains_key(*k)).map_or(String::new(), |k| format!("{k} is left"))
}

fn interrupted(b: &mut Bench, dir: &Path, how: pb::How, share: (usize, usize), rep: &mut Rep) -> std::result::Result<(), String> {
    let (url, lock) = small(b);
    let lock = lock(&[0, 1]);
    let go = |d: &Path, at: Option<usize>| {
        pb::apart(d, &[], 30.0, || {
            let doom = pb::Doom { root: d.to_str().unwrap().into(), at: at.unwrap_or(usize::MAX), how, n: Default::default(), apart: false, out: Some(d.join("at")) };
            let r = super::sys::with_env(&doom, || install(d, &url, &lock));
            std::fs::write(d.join("ops"), doom.n.get().to_string()).unwrap();
            r
        })
    };
    let (_, d) = b.home(dir);
    let want = match go(&d, None) {
        pb::Got::Fine(v) => v,
        o => return Err(format!("without faults: {o:?}")),
    };
    let total: usize = std::fs::read_to_string(d.join("ops")).unwrap().parse().unwrap();
    let n = want["files"].as_object().unwrap().len();
    if total < 100 || n < 15 {
        return Err(format!("only {total} operations and {n} files"));
    }
    let _ = std::fs::remove_dir_all(&d);
    for at in (0..total).skip(share.0).step_by(share.1) {
        let (_, d) = b.home(dir);
        let got = go(&d, Some(at));
        let place = std::fs::read_to_string(d.join("at")).unwrap_or_default().replace(d.to_str().unwrap(), "");
        if how == pb::How::Torn && !place.starts_with("Write") {
            let _ = std::fs::remove_dir_all(&d);
            continue;
        }
        rep.transitions += 1;
        let what = format!("{how:?} at {at} of {total} ({place})");
        match &got {
            pb::Got::Died(m) if m == "exit 99" && matches!(how, pb::How::Die | pb::How::Torn) => rep.outcome("interrupted, then right"),
            pb::Got::Failed(_) => rep.outcome("failed, then right"),
            pb::Got::Fine(v) if *v == want => rep.outcome("not interrupted"),
            pb::Got::Fine(v) => return Err(format!("{what}: it's fine, but {}", first_difference(&want, v))),
            o => return Err(format!("{what}: {o:?}")),
        }
        match go(&d, None) {
            pb::Got::Fine(v) if v == want => (),
            pb::Got::Fine(v) => return Err(format!("{what}, and again: {}", first_difference(&want, &v))),
            o => return Err(format!("{what}, and again: {o:?}")),
        }
        let _ = std::fs::remove_dir_all(&d);
    }
    Ok(())
}

fn together(b: &mut Bench, dir: &Path, lists: &[&'static [usize]; 2], locks: bool, bound: usize, rep: &mut Rep) -> std::result::Result<(), String> {
    let (url, lock) = small(b);
    let mut want = vec![];
    for l in lists {
        let (_, d) = b.home(dir);
        match pb::apart(&d, &[], 30.0, || install(&d, &url, &lock(l))) {
            pb::Got::Fine(v) => want.push(v),
            o => return Err(format!("alone: {o:?}")),
        }
        let _ = std::fs::remove_dir_all(&d);
    }
    let mut problem = None;
    let mut tries = 0;
    let stats = super::sched::explore(bound, 50_000, |prefix| loop {
        let (_, d) = b.home(dir);
        let got = pb::apart(&d, &[], 60.0, || {
            super::sched::LOCKS_ONLY.store(locks, std::sync::atomic::Ordering::Relaxed);
            let results: Vec<std::sync::Arc<std::sync::Mutex<serde_json::Value>>> = (0..2).map(|_| Default::default()).collect();
            let bodies = lists
                .iter()
                .zip(&results)
                .map(|(l, r)| {
                    let (lock, r, url, d) = (lock(l), r.clone(), url.clone(), d.clone());
                    Box::new(move || {
                        let x = guard(|| install(&d, &url, &lock));
                        *r.lock().unwrap() = match x {
                            Ok(Ok(v)) => json!({"fine": v}),
                            o => json!({"failed": format!("{o:?}")}),
                        };
                    }) as super::sched::Body
                })
                .collect();
            let x = super::sched::run_one(d.to_str().unwrap(), bodies, prefix);
            let results: Vec<serde_json::Value> = results.iter().map(|r| r.lock().unwrap().clone()).collect();
            let points: Vec<serde_json::Value> = x.points.iter().map(|p| json!([p.enabled, p.running_enabled, p.choice])).collect();
            Ok(json!({"results": results, "points": points, "deadlock": x.deadlock, "diverged": x.diverged}))
        });
        let mut ex = super::sched::Exec { points: vec![], trace: vec![], deadlock: None, diverged: None };
        let pb::Got::Fine(v) = got else {
            problem = Some(format!("{got:?} after {prefix:?}"));
            return (ex, true);
        };
        for p in v["points"].as_array().unwrap() {
            ex.points.push(super::sched::Point { enabled: p[0].as_u64().unwrap() as usize, running_enabled: p[1].as_bool().unwrap(), choice: p[2].as_u64().unwrap() as usize });
        }
        ex.deadlock = v["deadlock"].as_str().map(|s| s.to_string());
        ex.diverged = v["diverged"].as_str().map(|s| s.to_string());
        if let Some(m) = &ex.deadlock {
            problem = Some(format!("neither can go on: {m}; schedule {:?}", ex.choices()));
            return (ex, true);
        }
        if ex.diverged.is_some() {
            // downloads can come in other pieces
            tries += 1;
            if tries > 20 {
                return (ex, true);
            }
            let _ = std::fs::remove_dir_all(&d);
            continue;
        }
        for (i, want) in want.iter().enumerate() {
            let r = &v["results"][i];
            let p = match r.get("fine") {
                Some(v) if v == want => continue,
                Some(v) => first_difference(want, v),
                None => r.to_string(),
            };
            problem = Some(format!("installing {:?}: {p}; schedule {:?}", lists[i], ex.choices()));
            return (ex, true);
        }
        let _ = std::fs::remove_dir_all(&d);
        return (ex, false);
    });
    rep.traces += stats.executions;
    rep.transitions += stats.transitions;
    if std::env::var("VERIF_VERBOSE").is_ok() {
        eprintln!("{lists:?} {locks}: {tries} tries, {} schedules, {} points", stats.executions, stats.transitions);
    }
    if let Some(m) = problem {
        return Err(m);
    }
    if let Some(m) = stats.diverged {
        return Err(format!("the run isn't the same the second time: {m}"));
    }
    if stats.capped {
        return Err("too many schedules".into());
    }
    Ok(())
}

pub fn p15(mut ctx: Ctx) -> i32 {
    ctx.hang_secs = 800;
    ctx.unprivileged = true;
    let thorough = ctx.thorough();
    let mut cases = vec![];
    for i in 0..1 << WHEELS.len() {
        let l: Vec<usize> = (0..WHEELS.len()).filter(|k| i & (1 << k) != 0).collect();
        if l.len() <= if thorough { 4 } else { 3 } {
            for sd in [Sd::No, Sd::Unlocked, Sd::Bad] {
                if l.len() == 4 && sd != Sd::Unlocked {
                    continue;
                }
                cases.push(C15::Wheels(l.clone(), sd));
            }
        }
    }
    for i in 0..1 << PYBIS.len() {
        let l: Vec<usize> = (0..PYBIS.len()).filter(|k| i & (1 << k) != 0).collect();
        if l.len() <= if thorough { 4 } else { 3 } {
            cases.push(C15::Pythons(l));
        }
    }
    for i in 0..mds().len() {
        cases.push(C15::Metadata(i));
    }
    for i in 0..STEPS.len() {
        for j in 0..STEPS.len() {
            cases.push(C15::History(i, j));
        }
    }
    // selections in order
    for i in 0..5usize.pow(if thorough { 4 } else { 3 }) {
        cases.push(C15::Several(i));
    }
    for how in [pb::How::Die, pb::How::Torn, pb::How::Full, pb::How::Broken] {
        cases.extend((0..8).map(|i| C15::Interrupted(how, (i, 8))));
    }
    for l in [[&[0usize][..], &[0][..]], [&[0], &[1]], [&[0, 1], &[1, 0]], [&[0, 1], &[1]]] {
        cases.extend([C15::Together(l, false), C15::Together(l, true)]);
    }
    if let Ok(only) = std::env::var("VERIF_ONLY") {
        cases.retain(|c| format!("{c:?}").starts_with(&only));
    }
    let bound = |locks: bool| if !locks { 1 } else if thorough { 3 } else { 2 };
    ctx.run_cases(&cases, |c| format!("{c:?}"), |case, rep, dir| {
        let key = format!("{case:?}");
        rep.states += 1;
        rep.case(&key, true);
        let mut b = Bench { world: World::start(), n: 0, made: Default::default() };
        match case {
            C15::Wheels(l, sd) => {
                let total = 6usize.pow(l.len() as u32);
                for i in 0..total {
                    let files: Vec<(usize, St)> = l.iter().enumerate().map(|(p, k)| (*k, STATES[i / 6usize.pow(p as u32) % 6])).collect();
                    rep.transitions += 1;
                    match b.wheels(dir, &files, *sd, i) {
                        Ok(o) => rep.outcome(o),
                        Err(m) => {
                            let show: Vec<String> = files.iter().map(|(k, st)| format!("{} {st:?}", WHEELS[*k].0)).collect();
                            rep.violation(key.clone(), format!("{show:?} and sdist {sd:?}: {m}"));
                            break;
                        }
                    }
                }
                if l == &[0, 4] {
                    rep.sample(json!({"case": key}));
                }
            }
            C15::Pythons(l) => {
                let total = 6usize.pow(l.len() as u32);
                for i in 0..total {
                    let files: Vec<(usize, St)> = l.iter().enumerate().map(|(p, k)| (*k, STATES[i / 6usize.pow(p as u32) % 6])).collect();
                    for (j, list) in LISTS.iter().enumerate() {
                        if l.len() == 4 && j < LISTS.len() - 2 {
                            continue;
                        }
                        rep.transitions += 1;
                        match b.pythons(dir, &files, list, i) {
                            Ok(o) => rep.outcome(o),
                            Err(m) => {
                                let show: Vec<String> = files.iter().map(|(k, st)| format!("{} {st:?}", PYBIS[*k].0)).collect();
                                rep.violation(key.clone(), format!("{show:?} on {:?}: {m}", list.iter().map(|p| PLATFORMS[*p].0).collect::<Vec<_>>()));
                                return;
                            }
                        }
                    }
                }
            }
            C15::Metadata(i) => {
                let all = mds();
                for (j, have) in all.iter().enumerate() {
                    for again in [false, true] {
                        rep.transitions += 1;
                        let py = b.made("python".into(), || interpreter("m17", "good"));
                        let python = Served::new(&format!("cpython-{PYTHON}-manylinux_2_17_x86_64.pybi"), py);
                        let wheel = Served::new("pkg-1.0-py3-none-any.whl", b.made(format!("md{j}"), || wheel_id(&format!("md{j}"), "1.0", have)));
                        let lock = |m: &Md| Blueprint { pybi: pin("cpython", PYTHON, python.hash.clone()), wheels: vec![(pin("pkg", "1.0", wheel.hash.clone()), m.locked())], marker_expressions: Default::default() };
                        let url = b.world.set([("cpython".to_string(), vec![python.clone()]), ("pkg".into(), vec![wheel.clone()])].into_iter().collect());
                        let (home, d) = b.home(dir);
                        let r = (|| {
                            if again {
                                b.get(&home, &url, &lock(have), &["manylinux_2_17_x86_64"])??;
                            }
                            b.get(&home, &url, &lock(&all[*i]), &["manylinux_2_17_x86_64"])
                        })();
                        match (r, *i == j) {
                            (Ok(Ok(_)), true) => rep.outcome("the same metadata"),
                            (Ok(Err(_)), false) => rep.outcome("other metadata"),
                            (Ok(Ok(_)), false) => rep.violation(key.clone(), format!("the lock says {:?}, the wheel {have:?}, and it's installed (again: {again})", all[*i])),
                            (Ok(Err(m)), true) | (Err(m), _) => rep.violation(key.clone(), format!("the lock and the wheel say {have:?}: {m}")),
                        }
                        let _ = std::fs::remove_dir_all(d);
                    }
                }
            }
            C15::Interrupted(how, share) => {
                if let Err(m) = interrupted(&mut b, dir, *how, *share, rep) {
                    rep.violation(key, m);
                }
            }
            C15::Together(lists, locks) => {
                match together(&mut b, dir, lists, *locks, bound(*locks), rep) {
                    Ok(()) => rep.outcome("the same at the same time"),
                    Err(m) => rep.violation(key, m),
                }
            }
            C15::History(i, j) => {
                let depth = if thorough { 3 } else { 2 };
                for rest in 0..STEPS.len().pow(depth) {
                    let mut steps = vec![STEPS[*i], STEPS[*j]];
                    let mut r = rest;
                    for _ in 0..depth {
                        steps.push(STEPS[r % STEPS.len()]);
                        r /= STEPS.len();
                    }
                    // it has to end with an installation, and something has to happen before
                    if !matches!(steps.last(), Some(Step::Get(_) | Step::GetOther)) || !steps[..steps.len() - 1].iter().any(|s| matches!(s, Step::Get(_) | Step::GetOther)) {
                        continue;
                    }
                    rep.transitions += 1;
                    match history(&mut b, dir, &steps) {
                        Ok(_) => rep.outcome("history"),
                        Err(m) => {
                            rep.violation(key.clone(), format!("{steps:?}: {m}"));
                            break;
                        }
                    }
                }
            }
            C15::Several(i) => {
                let mut list = vec![];
                let mut r = *i;
                while r > 0 {
                    if r % 5 > 0 {
                        list.push(r % 5 - 1);
                    }
                    r /= 5;
                }
                let set: BTreeSet<usize> = list.iter().copied().collect();
                if set.len() < list.len() {
                    return;
                }
                rep.transitions += 1;
                match several(&mut b, dir, &list, rep) {
                    Ok(o) => rep.outcome(o),
                    Err(m) => rep.violation(key, format!("{:?}: {m}", list.iter().map(|i| MORE[*i]).collect::<Vec<_>>())),
                }
            }
        }
    });
    finish(ctx, Level {
        level: "model_checking",
        rule: "sets of up to three wheels of 9 tag sets, each in one of 6 relations to index and lock, x source archive absent, unlocked or altered; sets of up to three interpreters likewise x 11 platform lists (thorough: also all sets of four, with an unlocked source archive, on 2 lists); all pairs of metadata in lock and wheel; histories of 4 (thorough: 5) steps of installing, and of the index and its files changing; ordered selections of packages, whose environment python is run in; every file operation of installing an interpreter and two packages made to fail (process dies, torn write, ENOSPC, EIO), then installed again and compared file by file; all schedules of two installations sharing all, some or no packages with one preemption at any file operation, and with two (thorough three) at locks; made by the real code from a local index; states = cases, transitions = environments or histories, traces = python runs",
        assumptions: &["when the best listed file is not what its hash says, installing has to fail", "python runs are the system's python with the environment's variables and sitecustomize"],
    })
}
