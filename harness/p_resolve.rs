//! P13: resolution is sound and complete. P14: it prefers what it should.
use std::collections::{BTreeMap, BTreeSet};

use serde_json::json;

use super::archive;
use super::core::*;
use super::world::*;
use crate::prelude::*;
use crate::resolve::*;

const PYTHON: &str = "3.11.2";
const PLATFORM: &str = "manylinux_2_17_x86_64";

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mk {
    Always,
    /// extra == "x" (in texts it's x-y, in several spellings)
    X,
    /// true or false of the interpreter
    True,
    False,
    /// extra == "x" or something false
    XOrFalse,
    /// extra == "x" and something true
    XAndTrue,
    XAndFalse,
    NotX,
}

impl Mk {
    fn text(self) -> &'static str {
        match self {
            Mk::Always => "",
            Mk::X => "; extra == \"x-y\"",
            Mk::True => "; python_version >= \"3.10\"",
            Mk::False => "; sys_platform == \"win32\"",
            Mk::XOrFalse => "; extra == \"x.Y\" or python_version < \"3\"",
            Mk::XAndTrue => "; extra == \"X-Y\" and os_name == \"posix\"",
            Mk::XAndFalse => "; python_version == \"3.9\" and extra == \"x_y\"",
            Mk::NotX => "; extra != \"x-y\"",
        }
    }
    fn holds(self, extra: Option<&str>) -> bool {
        let x = extra == Some("x");
        match self {
            Mk::Always | Mk::True => true,
            Mk::X | Mk::XOrFalse | Mk::XAndTrue => x,
            Mk::False | Mk::XAndFalse => false,
            Mk::NotX => !x,
        }
    }
    /// the part that the lock must remember, and its value
    fn remembered(self, extra: Option<&str>) -> Option<(&'static str, bool)> {
        let x = extra == Some("x");
        match self {
            Mk::True => Some(("python_version >= \"3.10\"", true)),
            Mk::False => Some(("sys_platform == \"win32\"", false)),
            Mk::XOrFalse if !x => Some(("python_version < \"3\"", false)),
            Mk::XAndTrue if x => Some(("os_name == \"posix\"", true)),
            Mk::XAndFalse if x => Some(("python_version == \"3.9\"", false)),
            _ => None,
        }
    }
}

/// which of the versions 1, 2, 3 a specifier allows (bits)
type Set = u8;
const SPECS: &[(&str, Set)] = &[("", 7), ("==1", 1), ("==2", 2), ("==3", 4), ("<2", 1), (">1", 6), (">=2", 6), ("!=2", 5), (">3", 0), ("==1,==2", 0), ("~=2.0", 2), ("==1.*", 1), ("<=2,!=1", 2)];

fn allowed(spec: &str) -> Set {
    SPECS.iter().find(|s| s.0 == spec).unwrap().1
}

/// A dependency on a package by number
#[derive(Clone, Copy, Debug, PartialEq)]
struct D {
    on: usize,
    extra: Option<&'static str>,
    spec: &'static str,
    mk: Mk,
}

/// as the index and the results say
const NAMES: [&str; 4] = ["a", "b-b", "c", "d"];
/// in file names
const FILES: [&str; 4] = ["a", "b_b", "c", "d"];
/// in requirements with a specifier
const OTHER: [&str; 4] = ["A", "B_b", "c", "D"];

/// the extra x is spelled in several ways
fn spelled<'a>(extra: &'a str, spec: &str) -> &'a str {
    match (extra, spec) {
        ("x", "") => "x-y",
        ("x", ">1" | "==1") => "X_y",
        ("x", _) => "x.-Y",
        _ => extra,
    }
}

impl D {
    fn text(&self) -> String {
        format!("{}{}{}{}", if self.spec.is_empty() { NAMES } else { OTHER }[self.on], self.extra.map_or(String::new(), |e| format!("[{}]", spelled(e, self.spec))), if self.spec.is_empty() { String::new() } else { format!(" {}", self.spec) }, self.mk.text())
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Release {
    deps: Vec<D>,
    /// extras are always x, and all
    python: &'static str,
}

const PYTHONS_OK: &[&str] = &["", ">=3.7", ">=3.11,<4", "==3.11.*", "!=3.11.1"];

impl Release {
    fn metadata(&self) -> String {
        let mut s = String::from("Provides-Extra: X_Y\nProvides-Extra: all\n");
        for d in &self.deps {
            s += &format!("Requires-Dist: {}\n", d.text());
        }
        if !self.python.is_empty() {
            s += &format!("Requires-Python: {}\n", self.python);
        }
        s
    }
    fn python_ok(&self) -> bool {
        PYTHONS_OK.contains(&self.python)
    }
}

/// packages -> versions (1..) -> release
#[derive(Clone, Debug)]
struct Universe {
    pkgs: Vec<Vec<Release>>,
    roots: Vec<D>,
}

type Choice = Vec<Option<usize>>;

impl Universe {
    /// Does this set of versions fit: all that is needed, nothing else? With `strict`,
    /// a package that doesn't have a requested extra doesn't fit.
    fn fits(&self, c: &Choice, strict: bool) -> bool {
        let mut seen: BTreeSet<(usize, Option<&str>)> = BTreeSet::new();
        let mut todo: Vec<(usize, Option<&str>)> = vec![];
        let mut need = |d: &D, todo: &mut Vec<_>| -> bool {
            match c[d.on] {
                None => return false,
                Some(v) => {
                    if allowed(d.spec) & (1 << v) == 0 {
                        return false;
                    }
                }
            }
            todo.push((d.on, None));
            if let Some(e) = d.extra {
                todo.push((d.on, Some(e)));
            }
            true
        };
        for d in &self.roots {
            if d.mk.holds(None) && !need(d, &mut todo) {
                return false;
            }
        }
        while let Some((p, e)) = todo.pop() {
            if !seen.insert((p, e)) {
                continue;
            }
            let Some(v) = c[p] else { return false };
            let r = &self.pkgs[p][v];
            if !r.python_ok() {
                return false;
            }
            if let Some(e) = e {
                if strict && e != "x" && e != "all" {
                    return false;
                }
            }
            for d in &r.deps {
                if d.mk.holds(e) && !need(d, &mut todo) {
                    return false;
                }
            }
        }
        (0..self.pkgs.len()).all(|p| c[p].is_some() == seen.iter().any(|s| s.0 == p))
    }

    fn solvable(&self) -> Option<Choice> {
        let n = self.pkgs.len();
        let mut c: Choice = vec![None; n];
        loop {
            if self.fits(&c, true) {
                return Some(c);
            }
            let mut i = 0;
            loop {
                if i == n {
                    return None;
                }
                match c[i] {
                    None if !self.pkgs[i].is_empty() => {
                        c[i] = Some(0);
                        break;
                    }
                    Some(v) if v + 1 < self.pkgs[i].len() => {
                        c[i] = Some(v + 1);
                        break;
                    }
                    _ => {
                        c[i] = None;
                        i += 1;
                    }
                }
            }
        }
    }

    /// Markers whose values the lock must tell, of the chosen packages
    fn remembered(&self, c: &Choice) -> BTreeMap<&'static str, bool> {
        let mut out = BTreeMap::new();
        let mut todo: Vec<(usize, Option<&str>)> = vec![];
        let mut seen = BTreeSet::new();
        let mut take = |d: &D, e: Option<&str>, todo: &mut Vec<_>| {
            out.extend(d.mk.remembered(e));
            if d.mk.holds(e) {
                todo.push((d.on, None));
                todo.extend(d.extra.map(|x| (d.on, Some(x))));
            }
        };
        for d in &self.roots {
            take(d, None, &mut todo);
        }
        while let Some((p, e)) = todo.pop() {
            if seen.insert((p, e)) {
                for d in &self.pkgs[p][c[p].unwrap()].deps {
                    take(d, e, &mut todo);
                }
            }
        }
        out
    }

    fn show(&self) -> String {
        let mut s = format!("wanted: {}", self.roots.iter().map(|d| d.text()).collect::<Vec<_>>().join("; and "));
        for (p, rs) in self.pkgs.iter().enumerate() {
            for (v, r) in rs.iter().enumerate() {
                let mut l: Vec<String> = r.deps.iter().map(|d| d.text()).collect();
                if !r.python.is_empty() {
                    l.push(format!("python {}", r.python));
                }
                if !l.is_empty() {
                    s += &format!(" | {} {} needs {}", NAMES[p], v + 1, l.join(" and "));
                }
            }
        }
        s + &format!(" | versions: {}", self.pkgs.iter().map(|p| p.len().to_string()).collect::<Vec<_>>().join(","))
    }
}

struct Bench {
    world: World,
    home: Home,
    pybi: Served,
    /// wheels made so far, by name, version and metadata
    wheels: std::collections::HashMap<(usize, usize, String), Served>,
}

impl Bench {
    fn new(dir: &std::path::Path) -> Bench {
        Bench {
            world: World::start(),
            home: Home::new(dir),
            pybi: Served::new(&format!("cpython-{PYTHON}-{PLATFORM}.pybi"), pybi_bytes("cpython", PYTHON, PYTHON, &["cp311-cp311-PLATFORM", "py3-none-any"], &[])),
            wheels: Default::default(),
        }
    }

    fn judge(&mut self, u: &Universe) -> std::result::Result<&'static str, String> {
        let mut projects: BTreeMap<String, Vec<Served>> = BTreeMap::new();
        projects.insert("cpython".into(), vec![self.pybi.clone()]);
        let mut metas: BTreeMap<(usize, usize), (String, String)> = BTreeMap::new();
        for (p, rs) in u.pkgs.iter().enumerate() {
            let mut files = vec![];
            for (v, r) in rs.iter().enumerate() {
                let md = r.metadata();
                let f = self.wheels.entry((p, v, md.clone())).or_insert_with(|| Served::new(&format!("{}-{}-py3-none-any.whl", FILES[p], v + 1), wheel_bytes(NAMES[p], &(v + 1).to_string(), &md, &[])));
                metas.insert((p, v), (md, f.hash.clone().unwrap()));
                files.push(f.clone());
            }
            projects.insert(NAMES[p].into(), files);
        }
        let url = self.world.set(projects);
        let brief = guard(|| Brief {
            python: "cpython".parse().unwrap(),
            requirements: u.roots.iter().map(|d| d.text().parse().unwrap()).collect(),
            allow_pre: Default::default(),
        })?;
        let platform = PybiPlatform::new(PLATFORM);
        self.home.tidy();
        let home = &self.home;
        let got = guard(|| home.db(&[url]).and_then(|db| brief.resolve(&db, &[&platform], None, &[])).map_err(|e| format!("{e:#}")))?;
        match got {
            Err(e) => match u.solvable() {
                None => Ok("no solution"),
                Some(c) => Err(format!("there is no solution, it says ({}); but {} is one", e.lines().next().unwrap_or("").chars().take(200).collect::<String>(), show_choice(&c))),
            },
            Ok(b) => {
                let mut c: Choice = vec![None; u.pkgs.len()];
                if b.pybi.name.normalized() != "cpython" || b.pybi.version.to_string() != PYTHON || b.pybi.hashes.iter().map(|h| h.to_string()).collect::<Vec<_>>() != [format!("sha256={}", self.pybi.hash.clone().unwrap())] {
                    return Err(format!("pins the interpreter as {:?}", b.pybi));
                }
                for (pin, md) in &b.wheels {
                    let p = NAMES.iter().position(|n| *n == pin.name.normalized()).ok_or("an unknown package")?;
                    let v = pin.version.to_string().parse::<usize>().map_err(|_| "an unknown version")? - 1;
                    if c[p].is_some() {
                        return Err(format!("{} twice", NAMES[p]));
                    }
                    let Some((text, hash)) = metas.get(&(p, v)) else { return Err(format!("{} {} doesn't exist", NAMES[p], v + 1)) };
                    c[p] = Some(v);
                    if pin.hashes.iter().map(|h| h.to_string()).collect::<Vec<_>>() != [format!("sha256={hash}")] {
                        return Err(format!("pins {pin:?} instead of the hash {hash}"));
                    }
                    let field = |f: &str| text.lines().filter_map(|l| l.strip_prefix(f)).map(|s| s.trim().to_string()).collect::<Vec<_>>();
                    let reqs: Vec<PackageRequirement> = field("Requires-Dist:").iter().map(|s| s.parse().unwrap()).collect();
                    let extras: BTreeSet<String> = md.inner.extras.iter().map(|e| e.normalized().to_string()).collect();
                    let want_python: Specifiers = field("Requires-Python:").first().map_or(Default::default(), |s| s.parse().unwrap());
                    if md.inner.requires_dist != reqs || md.inner.requires_python != want_python || extras.iter().map(|s| &s[..]).collect::<Vec<_>>() != ["all", "x-y"] {
                        return Err(format!("records for {pin} {:?} instead of {text:?}", md.inner));
                    }
                    if !md.provenance.contains(&format!("/{}-{}-py3", FILES[p], v + 1)) {
                        return Err(format!("says the metadata of {pin} come from {}", md.provenance));
                    }
                }
                if !u.fits(&c, false) {
                    return Err(format!("chooses {}", show_choice(&c)));
                }
                let said: BTreeMap<String, bool> = b.marker_expressions.iter().map(|(k, v)| (k.to_string(), *v)).collect();
                for (k, v) in u.remembered(&c) {
                    if said.get(k) != Some(&v) {
                        return Err(format!("records {said:?} without {k:?} being {v}"));
                    }
                }
                for (k, v) in &said {
                    let all = [Mk::True, Mk::False, Mk::XOrFalse, Mk::XAndTrue, Mk::XAndFalse].iter().flat_map(|m| [m.remembered(None), m.remembered(Some("x"))]).flatten().collect::<BTreeMap<_, _>>();
                    if all.get(&k[..]) != Some(v) {
                        return Err(format!("records that {k:?} is {v}"));
                    }
                }
                Ok("solved")
            }
        }
    }
}

fn show_choice(c: &Choice) -> String {
    c.iter().enumerate().filter_map(|(p, v)| v.map(|v| format!("{} {}", NAMES[p], v + 1))).collect::<Vec<_>>().join(", ")
}

/// What release `p` may need; q and r are the next packages
fn items(p: usize, n: usize) -> Vec<Release> {
    let q = (p + 1) % n;
    let r = (p + 2) % n;
    let d = |on, spec| D { on, extra: None, spec, mk: Mk::Always };
    let x = |on, extra, spec| D { on, extra: Some(extra), spec, mk: Mk::Always };
    let m = |on, spec, mk| D { on, extra: None, spec, mk };
    let rel = |deps: Vec<D>| Release { deps, python: "" };
    let mut v = vec![
        rel(vec![d(q, "")]),
        rel(vec![d(q, "==1")]),
        rel(vec![d(q, "==2")]),
        rel(vec![d(q, "<2")]),
        rel(vec![d(q, "!=2"), d(r, ">1")]),
        rel(vec![d(q, ">3")]),
        rel(vec![d(q, "==1"), d(r, "==2")]),
        rel(vec![d(q, ">=2"), d(q, "<=2,!=1")]),
        rel(vec![d(q, "==1"), d(q, ">1")]),
        rel(vec![d(q, "==1,==2")]),
        rel(vec![m(q, "==1", Mk::False), m(q, ">=2", Mk::True)]),
        rel(vec![x(q, "x", "")]),
        rel(vec![x(q, "x", "==1")]),
        rel(vec![x(q, "x", ""), d(q, "==1.*")]),
        rel(vec![x(q, "y", "")]),
        rel(vec![x(q, "all", ">1")]),
        rel(vec![m(q, "==1", Mk::X)]),
        rel(vec![m(r, "==2", Mk::XOrFalse), m(q, "", Mk::XAndFalse)]),
        rel(vec![m(q, "~=2.0", Mk::XAndTrue)]),
        rel(vec![m(q, "==2", Mk::NotX)]),
        rel(vec![d(p, "")]),
        rel(vec![d(p, "==1")]),
        rel(vec![d(p, "==2"), d(q, "")]),
        rel(vec![x(p, "x", ""), m(r, "==1", Mk::X)]),
        rel(vec![m(p, "<2", Mk::X)]),
        rel(vec![D { on: p, extra: Some("x"), spec: "", mk: Mk::X }]),
        rel(vec![D { on: p, extra: Some("x"), spec: "==1", mk: Mk::X }]),
    ];
    for python in [">=3.7", ">=4", "<3.11", "==3.11.*"] {
        v.push(Release { deps: vec![], python });
    }
    v
}

fn roots(n: usize) -> Vec<Vec<D>> {
    let d = |on: usize, spec| D { on, extra: None, spec, mk: Mk::Always };
    let x = |on, extra, spec| D { on, extra: Some(extra), spec, mk: Mk::Always };
    let l = n - 1;
    vec![
        vec![d(0, "")],
        vec![d(0, ""), d(1, "==1")],
        vec![x(0, "x", "")],
        vec![d(0, "==1"), d(l, "")],
        vec![x(0, "x", ""), d(0, "<2"), x(1, "x", "")],
        vec![d(0, ""), d(0, "<2"), d(0, "!=2")],
        vec![d(l, ""), D { on: 0, extra: None, spec: "", mk: Mk::True }, D { on: 1, extra: None, spec: "", mk: Mk::False }],
        vec![x(0, "y", "")],
        vec![],
    ]
}

#[derive(Clone, Debug)]
enum C13 {
    /// two versions of three packages; these two (three) releases need something
    Few { slots: Vec<usize>, first: usize },
    /// three versions of two packages, everything simple
    Dense { first: usize, second: usize },
    /// four packages, two versions each, that mostly exclude each other
    Tangle(usize),
    /// packages that aren't there
    Gone,
    /// all markers of this many parts, beginning with this one
    Markers { parts: usize, first: usize },
}

/// A condition of a requirement: one of PARTS, or two conditions
#[derive(Clone, Debug)]
enum Cond {
    Part(usize),
    Both(bool, Box<Cond>, Box<Cond>),
}

const PARTS: [&str; 5] = ["python_version >= \"3.10\"", "sys_platform == \"win32\"", "extra == \"x-y\"", "extra != \"X.y\"", "\"x_Y\" == extra"];

impl Cond {
    fn text(&self) -> String {
        match self {
            Cond::Part(i) => PARTS[*i].into(),
            Cond::Both(and, a, b) => {
                let side = |c: &Cond| match c {
                    Cond::Part(_) => c.text(),
                    Cond::Both(..) => format!("({})", c.text()),
                };
                format!("{} {} {}", side(a), if *and { "and" } else { "or" }, side(b))
            }
        }
    }
    /// in an environment: its python is new, it is windows
    fn holds(&self, env: (bool, bool), extra: Option<&str>) -> bool {
        match self {
            Cond::Part(0) => env.0,
            Cond::Part(1) => env.1,
            Cond::Part(3) => extra != Some("x-y"),
            Cond::Part(_) => extra == Some("x-y"),
            Cond::Both(true, a, b) => a.holds(env, extra) && b.holds(env, extra),
            Cond::Both(false, a, b) => a.holds(env, extra) || b.holds(env, extra),
        }
    }
    fn all(parts: usize) -> Vec<Cond> {
        if parts == 1 {
            return (0..PARTS.len()).map(Cond::Part).collect();
        }
        let mut v = vec![];
        for left in 1..parts {
            for a in Cond::all(left) {
                for b in Cond::all(parts - left) {
                    for and in [true, false] {
                        v.push(Cond::Both(and, Box::new(a.clone()), Box::new(b.clone())));
                    }
                }
            }
        }
        v
    }
    fn first(&self) -> usize {
        match self {
            Cond::Part(i) => *i,
            Cond::Both(_, a, _) => a.first(),
        }
    }
}

impl Bench {
    /// Is what's needed under a condition pinned if and only if it holds, and does the lock tell
    /// on what that depends?
    fn condition(&mut self, c: &Cond, wanted: &str, extras: &[&str]) -> std::result::Result<&'static str, String> {
        use crate::vocab::marker::EnvMarkerExpr;
        let mut projects: BTreeMap<String, Vec<Served>> = BTreeMap::new();
        projects.insert("cpython".into(), vec![self.pybi.clone()]);
        let md = format!("Provides-Extra: X_Y\nProvides-Extra: all\nRequires-Dist: b-b; {}\n", c.text());
        projects.insert("a".into(), vec![Served::new("a-1-py3-none-any.whl", wheel_bytes("a", "1", &md, &[]))]);
        projects.insert("b-b".into(), vec![Served::new("b_b-1-py3-none-any.whl", wheel_bytes("b-b", "1", "", &[]))]);
        let url = self.world.set(projects);
        let brief = Brief { python: "cpython".parse().unwrap(), requirements: vec![wanted.parse().unwrap()], allow_pre: Default::default() };
        let platform = PybiPlatform::new(PLATFORM);
        self.home.tidy();
        let home = &self.home;
        let b = guard(|| home.db(&[url]).and_then(|db| brief.resolve(&db, &[&platform], None, &[])).map_err(|e| format!("there is no solution, it says: {e:#}")))??;
        let needed = |env| c.holds(env, None) || extras.iter().any(|e| c.holds(env, Some(e)));
        let decisions = |env| std::iter::once(None).chain(extras.iter().map(|e| Some(*e))).map(|e| c.holds(env, e)).collect::<Vec<_>>();
        let here = (true, false);
        let got: BTreeSet<String> = b.wheels.iter().map(|(p, _)| p.to_string()).collect();
        let want: BTreeSet<String> = ["a v1", "b-b v1"].iter().take(1 + needed(here) as usize).map(|s| s.to_string()).collect();
        if got.len() != want.len() || got.iter().any(|g| g.contains("b-b")) != needed(here) {
            return Err(format!("pins {got:?} instead of {want:?}"));
        }
        // what's recorded is so here; and elsewhere not, where something else would be needed
        let value = |e: &EnvMarkerExpr, env: (bool, bool)| {
            let vars: HashMap<String, String> = [("python_version", if env.0 { "3.11" } else { "3.9" }), ("sys_platform", if env.1 { "win32" } else { "linux" })].iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
            e.eval(&vars).map_err(|e| format!("records something unclear: {e}"))
        };
        for env in [(true, false), (true, true), (false, false), (false, true)] {
            let mut same = true;
            for (e, v) in &b.marker_expressions {
                same &= value(&e.0, env)? == *v;
            }
            if env == here && !same {
                return Err(format!("records {:?}, which isn't so", b.marker_expressions));
            }
            if same && decisions(env) != decisions(here) {
                return Err(format!("records only {:?}", b.marker_expressions));
            }
        }
        Ok(if b.marker_expressions.is_empty() { "a condition on extras" } else if needed(here) { "a condition that holds" } else { "a condition that doesn't hold" })
    }
}

pub fn p13(mut ctx: Ctx) -> i32 {
    ctx.hang_secs = 800;
    let thorough = ctx.thorough();
    let n_items = items(0, 3).len();
    let mut cases = vec![C13::Gone];
    for i in 0..6 {
        for first in 0..n_items {
            cases.push(C13::Few { slots: vec![i], first });
            for j in i + 1..6 {
                cases.push(C13::Few { slots: vec![i, j], first });
                if thorough {
                    for k in j + 1..6 {
                        cases.push(C13::Few { slots: vec![i, j, k], first });
                    }
                }
            }
        }
    }
    for first in 0..DENSE.len() {
        for second in 0..DENSE.len() {
            cases.push(C13::Dense { first, second });
        }
    }
    for i in 0..TANGLE.len() * TANGLE.len() {
        cases.push(C13::Tangle(i));
    }
    for parts in 1..=ctx.pick(3, 4) {
        for first in 0..PARTS.len() {
            cases.push(C13::Markers { parts, first });
        }
    }
    ctx.run_cases(&cases, |c| format!("{c:?}"), |case, rep, dir| {
        let key = format!("{case:?}");
        rep.states += 1;
        rep.case(&key, true);
        let mut bench = Bench::new(dir);
        let mut one = |u: Universe, rep: &mut Rep| {
            if rep.violations.len() > 2 {
                return;
            }
            rep.transitions += 1;
            match bench.judge(&u) {
                Err(m) => rep.violation(key.clone(), format!("{}: {m}", u.show())),
                Ok(o) => {
                    rep.traces += (o == "solved") as u64;
                    rep.outcome(o);
                }
            }
        };
        let empty = || Release { deps: vec![], python: "" };
        match case {
            C13::Markers { parts, first } => {
                for c in Cond::all(*parts).iter().filter(|c| c.first() == *first) {
                    for (wanted, extras) in [("a", &[][..]), ("a[X_y]", &["x-y"]), ("a[all]", &["all"]), ("a[all,x.y]", &["all", "x-y"])] {
                        rep.transitions += 1;
                        rep.traces += 1;
                        match bench.condition(c, wanted, extras) {
                            Ok(o) => rep.outcome(o),
                            Err(m) => {
                                rep.violation(key.clone(), format!("wanted: {wanted} | a needs b-b; {}: {m}", c.text()));
                                return;
                            }
                        }
                    }
                }
            }
            C13::Few { slots, first } => {
                let base: Vec<Vec<Release>> = vec![vec![empty(), empty()]; 3];
                let mut combos: Vec<Vec<usize>> = vec![vec![*first]];
                // with three, only every fourth item for the last
                for (k, _) in slots.iter().enumerate().skip(1) {
                    combos = combos.iter().flat_map(|c| (0..n_items).filter(|i| k < 2 || (i + c[0] + c[1]) % 4 == 0).map(|i| [&c[..], &[i]].concat()).collect::<Vec<_>>()).collect();
                }
                for c in combos {
                    let mut pkgs = base.clone();
                    for (s, i) in slots.iter().zip(&c) {
                        pkgs[s / 2][s % 2] = items(s / 2, 3)[*i].clone();
                    }
                    for (r, roots) in roots(3).into_iter().enumerate() {
                        if slots.len() == 3 && (r + c[2]) % 3 != 0 {
                            continue;
                        }
                        one(Universe { pkgs: pkgs.clone(), roots }, rep);
                    }
                }
                if slots == &[0, 3] && *first == 3 {
                    rep.sample(json!({"case": key}));
                }
            }
            C13::Dense { first, second } => {
                let k = DENSE.len();
                for i in 0..k * k * k * k {
                    let pick = [*first, *second, i % k, i / k % k, i / k / k % k, i / k / k / k];
                    // quick: half of the combinations, by the parity of their sum
                    if !thorough && pick.iter().sum::<usize>() % 4 != 0 {
                        continue;
                    }
                    let rel = |p: usize, c: usize| match DENSE[c] {
                        "-" => empty(),
                        "self" => Release { deps: vec![D { on: p, extra: None, spec: ">=2", mk: Mk::Always }], python: "" },
                        spec => Release { deps: vec![D { on: 1 - p, extra: None, spec, mk: Mk::Always }], python: "" },
                    };
                    let pkgs = vec![(0..3).map(|v| rel(0, pick[v])).collect(), (0..3).map(|v| rel(1, pick[3 + v])).collect()];
                    let d = |on, spec| D { on, extra: None, spec, mk: Mk::Always };
                    one(Universe { pkgs: pkgs.clone(), roots: vec![d(0, "")] }, rep);
                    if thorough {
                        one(Universe { pkgs, roots: vec![d(1, "!=2"), d(0, "")] }, rep);
                    }
                }
            }
            C13::Tangle(i) => {
                // each release needs one thing of each later package
                let k = TANGLE.len();
                for rest in 0..k * k * k * k {
                    let pick = [i % k, i / k, rest % k, rest / k % k, rest / k / k % k, rest / k / k / k];
                    if !thorough && pick.iter().enumerate().map(|(a, b)| (a + 1) * b).sum::<usize>() % 7 != 0 {
                        continue;
                    }
                    let rel = |p: usize, c: usize| Release {
                        deps: TANGLE[c].iter().enumerate().filter_map(|(n, spec)| (!spec.is_empty()).then(|| D { on: (p + 1 + n) % 4, extra: if n == 1 && c == 3 { Some("x") } else { None }, spec, mk: Mk::Always })).collect(),
                        python: "",
                    };
                    let pkgs = vec![vec![rel(0, pick[0]), rel(0, pick[1])], vec![rel(1, pick[2]), rel(1, pick[3])], vec![rel(2, pick[4]), rel(2, pick[5])], vec![empty(), Release { deps: vec![D { on: 0, extra: None, spec: "==1", mk: Mk::X }], python: "" }]];
                    one(Universe { pkgs, roots: vec![D { on: 0, extra: None, spec: "", mk: Mk::Always }, D { on: 1, extra: None, spec: "", mk: Mk::Always }] }, rep);
                }
            }
            C13::Gone => {
                for gone in 1..8usize {
                    for i in 0..n_items {
                        for s in 0..6 {
                            let mut pkgs: Vec<Vec<Release>> = vec![vec![empty(), empty()]; 3];
                            pkgs[s / 2][s % 2] = items(s / 2, 3)[i].clone();
                            for p in 0..3 {
                                if gone & (1 << p) != 0 {
                                    pkgs[p].clear();
                                }
                            }
                            one(Universe { pkgs, roots: roots(3)[i % 4].clone() }, rep);
                        }
                    }
                }
            }
        }
    });
    finish(ctx, Level {
        level: "model_checking",
        rule: "universes of three packages with two versions of which up to two (thorough: three) need something, over 31 kinds of needs (ranges, contradictions, extras, markers, own package, python) x 9 requests; two packages of three versions with all dependencies on each other (quick: a quarter); four packages in tangles (quick: a seventh); missing packages; conditions of up to three (thorough: four) parts on the interpreter and on extras, in all and/or trees x 4 requests; each served over HTTP, resolved by the real code, and compared with all possible selections; states = cases, transitions = universes, traces = universes solved",
        assumptions: &["completeness is relative to the interpreter, which is chosen first", "a package without a requested extra may be used or passed over"],
    })
}

const DENSE: &[&str] = &["-", "==1", "==2", "==3", ">1", "self"];
const TANGLE: &[[&str; 3]] = &[["", "", ""], ["==1", "", "==2"], ["==2", "==1", ""], [">1", "==2", "==1"], ["", "!=2", "==2"]];

// ---------------------------------------------------------------- P14

/// versions, lowest first; and whether it's a pre-release
const VERSIONS: &[(&str, bool)] = &[("0.9.post1", false), ("1.0", false), ("2.0.dev1", true), ("2.0rc1", true), ("2.0", false), ("2.0+l.1", false), ("2.0.post1.dev2", true), ("2.0.post1", false), ("10.0", false), ("1!0.5a1", true), ("1!0.5", false)];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Py {
    Any,
    Fits,
    Not,
    Odd,
}

/// a file of a release: yanked, its index's python requirement, hash listed
type FileOf = (bool, Py, bool);

const FILES_OF: &[&[FileOf]] = &[
    &[(false, Py::Any, true)],
    &[(true, Py::Any, true)],
    &[(false, Py::Not, true)],
    &[(false, Py::Fits, true)],
    &[(true, Py::Any, true), (false, Py::Fits, true)],
    &[(false, Py::Any, true), (true, Py::Any, true)],
    &[(true, Py::Fits, true), (false, Py::Not, true)],
    &[(false, Py::Odd, true)],
    &[(false, Py::Odd, true), (false, Py::Any, true)],
    &[(false, Py::Not, true), (false, Py::Fits, true)],
    &[(true, Py::Not, true)],
    &[(true, Py::Any, false)],
    &[(false, Py::Any, false)],
];

fn py_text(p: Py) -> Option<String> {
    match p {
        Py::Any => None,
        Py::Fits => Some(">=3.7, !=3.8.*".into()),
        Py::Not => Some("<3.11".into()),
        Py::Odd => Some(">=3.x".into()),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Pin {
    None,
    /// version (index into the listed ones), with the hash of its file of that number
    Of(usize, usize),
    /// version, with no hashes
    Bare(usize),
    /// a version that isn't there
    Gone,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Allow {
    None,
    This,
    Other,
    All,
}

fn allow_pre(a: Allow, this: &str) -> AllowPre {
    match a {
        Allow::None => Default::default(),
        Allow::This => AllowPre::Some([this.parse::<PackageName>().unwrap()].into_iter().collect()),
        Allow::Other => AllowPre::Some(["other".parse::<PackageName>().unwrap()].into_iter().collect()),
        Allow::All => AllowPre::All,
    }
}

fn pin_of(name: &str, version: &str, hash: Option<&str>) -> PinnedPackage {
    PinnedPackage { name: name.parse().unwrap(), version: version.parse().unwrap(), hashes: hash.into_iter().map(|h| format!("sha256={h}").parse().unwrap()).collect() }
}

fn earlier(pybi: PinnedPackage, wheels: Vec<PinnedPackage>) -> Blueprint {
    Blueprint {
        pybi,
        wheels: wheels
            .into_iter()
            .map(|p| (p, WheelResolveMetadata { provenance: "an earlier day".into(), inner: WheelResolveMetadataInner { requires_dist: vec![], requires_python: Default::default(), extras: Default::default() } }))
            .collect(),
        marker_expressions: Default::default(),
    }
}

struct Bench14 {
    world: World,
    home: Home,
    pybi: Served,
    wheels: BTreeMap<(usize, usize), Served>,
    pybis: BTreeMap<(usize, usize), Served>,
}

struct Q14<'a> {
    /// in the order listed
    versions: &'a [usize],
    files: &'a [usize],
    pin: Pin,
    allow: Allow,
    /// specifier, and whether it fits
    spec: (&'a str, &'a dyn Fn(usize) -> bool),
    /// files of the releases are listed alternatingly
    mixed: bool,
}

impl Bench14 {
    fn new(dir: &std::path::Path) -> Bench14 {
        Bench14 {
            world: World::start(),
            home: Home::new(dir),
            pybi: Served::new(&format!("cpython-{PYTHON}-{PLATFORM}.pybi"), pybi_bytes("cpython", PYTHON, PYTHON, &["cp311-cp311-PLATFORM", "py3-none-any"], &[])),
            wheels: Default::default(),
            pybis: Default::default(),
        }
    }

    fn package(&mut self, q: &Q14) -> std::result::Result<&'static str, String> {
        let mut rows: Vec<(usize, usize, Served)> = vec![];
        let mut hashes: BTreeMap<(usize, usize), String> = BTreeMap::new();
        for (i, (v, fs)) in q.versions.iter().zip(q.files).enumerate() {
            for (j, (yanked, py, listed)) in FILES_OF[*fs].iter().enumerate() {
                let name = VERSIONS[*v].0;
                let mut f = self
                    .wheels
                    .entry((*v, j))
                    .or_insert_with(|| Served::new(&format!("a_a-{}-{}-py3-none-any.whl", name, j + 1), wheel_bytes("a-a", name, "", &[archive::Z::file("n", format!("{j}"))])))
                    .clone();
                hashes.insert((i, j), f.hash.clone().unwrap());
                if !listed {
                    f.hash = None;
                }
                f.yanked = yanked.then(|| "bad".to_string());
                f.requires_python = py_text(*py);
                rows.push((j, i, f));
            }
        }
        if q.mixed {
            rows.sort_by_key(|r| (r.0, r.1));
        }
        let url = self.world.set([("cpython".to_string(), vec![self.pybi.clone()]), ("a-a".into(), rows.into_iter().map(|r| r.2).collect())].into_iter().collect());
        let brief = guard(|| Brief { python: "cpython".parse().unwrap(), requirements: vec![format!("A.a {}", q.spec.0).trim().parse().unwrap()], allow_pre: allow_pre(q.allow, "a_A") })?;
        let pin = guard(|| match q.pin {
            Pin::None => None,
            Pin::Of(i, j) => Some(pin_of("A_A", VERSIONS[q.versions[i]].0, Some(&hashes[&(i, j)]))),
            Pin::Bare(i) => Some(pin_of("A-a", VERSIONS[q.versions[i]].0, None)),
            Pin::Gone => Some(pin_of("A-a", "1.5", Some(&"ab".repeat(32)))),
        })?;
        let like = pin.map(|p| earlier(pin_of("cpython", PYTHON, self.pybi.hash.as_deref()), vec![p]));
        let platform = PybiPlatform::new(PLATFORM);
        self.home.tidy();
        let home = &self.home;
        let got = guard(|| home.db(&[url]).and_then(|db| brief.resolve(&db, &[&platform], like.as_ref(), &[])).map_err(|e| format!("{e:#}")))?;

        // ---- what should it be?
        let pinned_hash = match q.pin {
            Pin::Of(i, j) if FILES_OF[q.files[i]][j].2 => Some((i, j)),
            _ => None,
        };
        let pinned = match q.pin {
            Pin::Of(i, _) | Pin::Bare(i) => Some(i),
            _ => None,
        };
        // odd requirements may count as either
        let usable = |i: usize, odd: bool| FILES_OF[q.files[i]].iter().enumerate().any(|(j, (yanked, py, _))| (!yanked || pinned_hash == Some((i, j))) && (matches!(py, Py::Any | Py::Fits) || (odd && *py == Py::Odd)));
        let pre = |i: usize| VERSIONS[q.versions[i]].1;
        let all = 0..q.versions.len();
        // if nothing but pre-releases can be used, but others are listed, either is fine
        let mut answers: BTreeSet<Option<usize>> = BTreeSet::new();
        for odd in [false, true] {
            let only_pre = [all.clone().all(pre), all.clone().filter(|i| usable(*i, odd)).all(pre)];
            for only_pre in only_pre {
                let ok = |i: usize| usable(i, odd) && (q.spec.1)(q.versions[i]) && (!pre(i) || only_pre || matches!(q.allow, Allow::This | Allow::All) || pinned == Some(i));
                let fine: Vec<usize> = all.clone().filter(|i| ok(*i)).collect();
                if let Some(p) = pinned.filter(|p| fine.contains(p)) {
                    answers.insert(Some(p));
                } else {
                    answers.insert(fine.iter().copied().max_by_key(|i| q.versions[*i]));
                    // what the code says it prefers with a pin that can't be kept
                    let at = match (q.pin, pinned) {
                        (_, Some(p)) => Some(q.versions[p]),
                        (Pin::Gone, _) => Some(1),
                        _ => None,
                    };
                    if let Some(at) = at {
                        answers.insert(fine.iter().copied().filter(|i| q.versions[*i] > at).min_by_key(|i| q.versions[*i]).or(fine.iter().copied().max_by_key(|i| q.versions[*i])));
                    }
                }
            }
        }
        let (say, class) = match &got {
            Ok(b) => {
                let [(pin, _)] = &b.wheels[..] else { return Err(format!("pins {:?}", b.wheels)) };
                let i = q.versions.iter().position(|v| pin.version.to_string() == VERSIONS[*v].0 || pin.version == VERSIONS[*v].0.parse().unwrap()).ok_or_else(|| format!("pins {pin:?}"))?;
                let mut have: Vec<String> = pin.hashes.iter().map(|h| h.to_string()).collect();
                let mut want: Vec<String> = (0..FILES_OF[q.files[i]].len()).filter(|j| FILES_OF[q.files[i]][*j].2).map(|j| format!("sha256={}", hashes[&(i, j)])).collect();
                have.sort();
                want.sort();
                if have != want {
                    return Err(format!("pins {have:?}, not {want:?}"));
                }
                (Some(i), if pinned == Some(i) { "kept" } else if pre(i) { "pre-release" } else { "newest" })
            }
            Err(_) => (None, "none"),
        };
        if !answers.contains(&say) {
            let name = |i: &Option<usize>| i.map_or("nothing".to_string(), |i| VERSIONS[q.versions[i]].0.to_string());
            return Err(format!("chooses {} instead of {}{}", name(&say), answers.iter().map(name).collect::<Vec<_>>().join(" or "), got.err().map_or(String::new(), |e| format!(" ({})", e.chars().take(150).collect::<String>()))));
        }
        Ok(class)
    }

    fn python(&mut self, q: &Q14py) -> std::result::Result<&'static str, String> {
        let mut rows: Vec<Served> = vec![];
        let mut of: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for (v, set) in q.listed {
            for t in PYBI_SETS[*set] {
                let version = PYTHONS[*v].0;
                let mac = silent(*t);
                let machine = format!("m{t}");
                let mut f = self
                    .pybis
                    .entry((*v, *t))
                    .or_insert_with(|| Served::new(&format!("cpython-{version}-{}.pybi", PYBI_TAGS[*t]), pybi_machine("cpython", version, version, (!mac).then_some(&machine[..]), &["py3-none-any"], &[archive::Z::file("n", PYBI_TAGS[*t])])))
                    .clone();
                f.yanked = (q.yanked == Some(*v)).then(String::new);
                rows.push(f);
                of.entry(*v).or_default().push(*t);
            }
        }
        if q.backwards {
            rows.reverse();
        }
        let hash = |v: usize| self.pybis[&(v, of[&v][0])].hash.clone();
        let wheel = self.wheels.entry((1, 0)).or_insert_with(|| Served::new("a_a-1.0-1-py3-none-any.whl", wheel_bytes("a-a", "1.0", "", &[]))).clone();
        let url = self.world.set([("cpython".to_string(), rows), ("a-a".into(), vec![wheel])].into_iter().collect());
        let machines: Vec<String> = (0..PYBI_TAGS.len()).map(|t| format!("m{t}")).chain(["arm64".into(), "x86_64".into()]).collect();
        let brief = guard(|| Brief {
            python: format!("cpython {}", q.spec).trim().parse().unwrap(),
            requirements: machines.iter().map(|m| format!("a-a; platform_machine == \"{m}\"").parse().unwrap()).collect(),
            allow_pre: allow_pre(if q.allow { Allow::This } else { Allow::None }, "CPython"),
        })?;
        let like = guard(|| q.pin.map(|(v, with)| earlier(pin_of("cpython", PYTHONS[v].0, if with { hash(v) } else { None }.as_deref()), vec![])))?;
        let platforms: Vec<PybiPlatform> = q.platforms.iter().map(|p| PybiPlatform::new(PLATFORMS[*p].0)).collect();
        let platforms: Vec<&PybiPlatform> = platforms.iter().collect();
        self.home.tidy();
        let home = &self.home;
        let got = guard(|| home.db(&[url]).and_then(|db| brief.resolve(&db, &platforms, like.as_ref(), &[])).map_err(|e| format!("{e:#}")))?;

        // ---- what should it be?
        let all_pre = of.keys().all(|v| PYTHONS[*v].1);
        let best = |v: usize| q.platforms.iter().find_map(|p| PLATFORMS[*p].1.iter().find(|t| of[&v].contains(*t)).map(|t| (v, *t, *p)));
        let fine = |v: usize| {
            let kept = q.pin.map_or(false, |p| p.0 == v);
            // each file's hash is another, so a yanked one with the right hash is one of several
            (q.yanked != Some(v) || (q.pin == Some((v, true)))) && (!PYTHONS[v].1 || all_pre || q.allow || kept) && python_fits(q.spec, v)
        };
        let fits: Vec<(usize, usize, usize)> = of.keys().copied().filter(|v| fine(*v)).filter_map(best).collect();
        let mut answers: BTreeSet<Option<(usize, usize, usize)>> = BTreeSet::new();
        match q.pin.and_then(|p| fits.iter().find(|f| f.0 == p.0)) {
            Some(f) => {
                answers.insert(Some(*f));
            }
            None => {
                answers.insert(fits.last().copied());
                if let Some((at, _)) = q.pin {
                    answers.insert(fits.iter().find(|f| f.0 > at).or(fits.last()).copied());
                }
            }
        }
        let say = match &got {
            Ok(b) => {
                let v = PYTHONS.iter().position(|p| p.0 == b.pybi.version.to_string()).ok_or_else(|| format!("pins {:?}", b.pybi))?;
                let mut want: Vec<String> = of[&v].iter().map(|t| format!("sha256={}", self.pybis[&(v, *t)].hash.as_ref().unwrap())).collect();
                let mut have: Vec<String> = b.pybi.hashes.iter().map(|h| h.to_string()).collect();
                want.sort();
                have.sort();
                // files for several platforms may count several times
                have.dedup();
                if want != have {
                    return Err(format!("pins {have:?}, not {want:?}"));
                }
                let m: Vec<&String> = machines.iter().filter(|m| b.marker_expressions.iter().any(|(k, x)| *x && k.to_string().contains(&format!("\"{m}\"")))).collect();
                let [m] = &m[..] else { return Err(format!("is on the machines {m:?}: {:?}", b.marker_expressions.iter().map(|(k, v)| format!("{k}: {v}")).collect::<Vec<_>>())) };
                Some((PYTHONS[v].0, m.to_string()))
            }
            Err(_) => None,
        };
        let answers: Vec<Option<(&str, String)>> = answers
            .into_iter()
            .map(|a| {
                a.map(|(v, t, p)| {
                    let m = if !silent(t) { format!("m{t}") } else if PLATFORMS[p].0.ends_with("arm64") { "arm64".into() } else { "x86_64".into() };
                    (PYTHONS[v].0, m)
                })
            })
            .collect();
        if !answers.contains(&say) {
            return Err(format!("chooses {say:?} instead of {answers:?}{}", got.err().map_or(String::new(), |e| format!(" ({})", e.chars().take(150).collect::<String>()))));
        }
        Ok(if say.is_none() { "no python" } else if q.pin.map_or(false, |p| say.as_ref().unwrap().0 == PYTHONS[p.0].0) { "python kept" } else { "newest python" })
    }
}

const PYTHONS: &[(&str, bool)] = &[("3.9.16", false), ("3.11.2", false), ("3.12.0rc1", true), ("3.12.0", false), ("3.13.0.dev2", true)];
const PYBI_TAGS: &[&str] = &["manylinux_2_17_x86_64", "manylinux_2_28_x86_64", "manylinux_2_31_x86_64", "musllinux_1_1_x86_64", "win_amd64", "macosx_11_0_arm64", "macosx_11_0_universal2", "manylinux2014_x86_64.manylinux_2_5_x86_64", "macosx_12_0_x86_64"];
/// An interpreter for macOS that doesn't say on which machine it runs
fn silent(t: usize) -> bool {
    PYBI_TAGS[t].starts_with("macosx") && !PYBI_TAGS[t].starts_with("macosx_12")
}
const PYBI_SETS: &[&[usize]] = &[&[0], &[1], &[0, 1], &[2, 1], &[3, 4], &[4], &[6], &[5, 8], &[6, 3, 0], &[7, 1]];
/// platforms, and the tags they accept, best first
const PLATFORMS: &[(&str, &[usize])] = &[
    ("manylinux_2_30_x86_64", &[1, 0, 7]),
    ("manylinux_2_17_x86_64", &[0, 7]),
    ("musllinux_1_2_x86_64", &[3]),
    ("win_amd64", &[4]),
    ("macosx_12_0_arm64", &[5, 6]),
    ("macosx_13_0_x86_64", &[8, 6]),
];
const PLATFORM_LISTS: &[&[usize]] = &[&[0], &[1], &[2, 0], &[0, 2], &[4, 0], &[5], &[3, 1], &[4], &[1, 0], &[]];
const PY_SPECS: &[&str] = &["", ">=3.11", "<3.12", "==3.12.0rc1", "!=3.12.0", ">=3.14"];

fn python_fits(spec: &str, v: usize) -> bool {
    match spec {
        "" => true,
        ">=3.11" => v >= 1,
        // PEP 440: not the pre-releases of what it excludes
        "<3.12" => v <= 1,
        "==3.12.0rc1" => v == 2,
        "!=3.12.0" => v != 3,
        _ => false,
    }
}

struct Q14py<'a> {
    listed: &'a [(usize, usize)],
    yanked: Option<usize>,
    spec: &'a str,
    allow: bool,
    pin: Option<(usize, bool)>,
    platforms: &'a [usize],
    backwards: bool,
}

#[derive(Clone, Debug)]
enum C14 {
    /// these versions listed in this order, these files of the first
    Pick(Vec<usize>, usize),
    /// python versions and files of the first
    Python(Vec<usize>, usize),
    /// these files of a package, in every order
    Order(usize),
}

/// Files of a package, and what each says it needs
const ORDERED: &[(&str, &str)] = &[
    ("a_a-2.0-py3-none-any.whl", ""),
    ("a_a-2.0-1-py3-none-any.whl", "Requires-Dist: b-b\n"),
    ("a_a-2.0-cp311-cp311-manylinux_2_17_x86_64.whl", "Requires-Dist: b-b; os_name == \"posix\"\n"),
    ("a_a-2.0.tar.gz", ""),
    ("a_a-1.0-py3-none-any.whl", ""),
    ("A.A-1.0.zip", ""),
    ("a_a-2.0-py2.py3-none-win_amd64.whl", ""),
];

impl Bench14 {
    /// The lock file for these files in this order
    fn ordered(&mut self, files: &[usize], dir: &std::path::Path) -> std::result::Result<String, String> {
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir(dir).unwrap();
        self.listed(files, &Home::new(dir))
    }

    /// The same for those before, first; then all the files
    fn warmed(&mut self, before: &[usize], files: &[usize], dir: &std::path::Path) -> std::result::Result<String, String> {
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir(dir).unwrap();
        let home = Home::new(dir);
        self.listed(before, &home)?;
        self.listed(files, &home)
    }

    fn listed(&mut self, files: &[usize], home: &Home) -> std::result::Result<String, String> {
        let mut rows = vec![];
        for (n, f) in files.iter().enumerate() {
            let (name, needs) = ORDERED[*f];
            let version = if name.contains("2.0") { "2.0" } else { "1.0" };
            let bytes = if name.ends_with(".whl") { wheel_bytes("a-a", version, needs, &[archive::Z::file("n", name)]) } else { name.as_bytes().to_vec() };
            rows.push(self.wheels.entry((100, *f)).or_insert_with(|| Served::new(name, bytes)).clone());
            // (one without a hash)
            if *f == 6 {
                rows[n].hash = None;
            }
        }
        let rising = |a: usize, b: usize| files.iter().position(|f| *f == a) < files.iter().position(|f| *f == b);
        let mut bs: Vec<Served> = (1..3).map(|j| self.wheels.entry((101, j)).or_insert_with(|| Served::new(&format!("b_b-1.0-{j}-py3-none-any.whl"), wheel_bytes("b-b", "1.0", "", &[archive::Z::file("n", format!("{j}"))]))).clone()).collect();
        let mut pythons: Vec<Served> = ["manylinux_2_17_x86_64", "win_amd64", "macosx_11_0_universal2"]
            .iter()
            .enumerate()
            .map(|(t, tag)| self.pybis.entry((100, t)).or_insert_with(|| Served::new(&format!("cpython-3.11.2-{tag}.pybi"), pybi_machine("cpython", "3.11.2", "3.11.2", Some(["x", "y", "z"][t]), &["py3-none-any"], &[archive::Z::file("n", tag)]))).clone())
            .collect();
        if rising(files[0], files[1 % files.len()]) {
            bs.reverse();
        }
        pythons.rotate_left(files[0] % 3);
        if rising(files[files.len() - 1], files[0]) {
            pythons.swap(0, 1);
        }
        let url = self.world.set([("cpython".to_string(), pythons), ("a-a".into(), rows), ("b-b".into(), bs)].into_iter().collect());
        let brief = Brief { python: "cpython".parse().unwrap(), requirements: vec!["a-a".parse().unwrap(), "b-b; platform_machine == \"y\"".parse().unwrap()], allow_pre: allow_pre(Allow::None, "a-a") };
        let platforms: Vec<PybiPlatform> = ["win_amd64", "manylinux_2_17_x86_64"].iter().map(|p| PybiPlatform::new(p)).collect();
        let platforms: Vec<&PybiPlatform> = platforms.iter().collect();
        let got = guard(|| home.db(&[url]).and_then(|db| brief.resolve(&db, &platforms, None, &[])).map_err(|e| format!("{e:#}")))?;
        // what it needs is what the file says that it names
        for (pin, m) in got.iter().flat_map(|b| &b.wheels) {
            if pin.name.normalized() == "a-a" {
                let file = m.provenance.rsplit('/').next().unwrap().split('#').next().unwrap();
                let Some((_, needs)) = ORDERED.iter().find(|o| o.0 == file) else { return Err(format!("the lock's metadata is from {:?}", m.provenance)) };
                let want: Vec<PackageRequirement> = needs.trim().strip_prefix("Requires-Dist: ").map(|r| r.try_into().unwrap()).into_iter().collect();
                if m.inner.requires_dist != want {
                    return Err(format!("the lock says it takes the needs of a-a from {file}, which says {want:?}; but it has {:?}", m.inner.requires_dist));
                }
            }
        }
        let got = got.map_or_else(|_| "nothing".into(), |b| serde_json::to_string(&b).unwrap());
        Ok(got)
    }
}

fn orders(files: &[usize], f: &mut dyn FnMut(&[usize])) {
    fn go(rest: &mut Vec<usize>, done: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if rest.is_empty() {
            return f(done);
        }
        for i in 0..rest.len() {
            let x = rest.remove(i);
            done.push(x);
            go(rest, done, f);
            done.pop();
            rest.insert(i, x);
        }
    }
    go(&mut files.to_vec(), &mut vec![], f)
}

/// what to ask for, given the versions (in order): nothing, all but the newest, up to the middle, exactly one
fn asks(vs: &[usize]) -> Vec<(String, Box<dyn Fn(usize) -> bool>)> {
    let max = *vs.iter().max().unwrap();
    let min = *vs.iter().min().unwrap();
    let name = |v: usize| VERSIONS[v].0;
    let mut out: Vec<(String, Box<dyn Fn(usize) -> bool>)> = vec![("".into(), Box::new(|_| true))];
    // != also excludes local versions
    out.push((format!("!= {}", name(max)), Box::new(move |v| v != max && !(name(max) == "2.0" && name(v) == "2.0+l.1"))));
    out.push((format!("== {}", name(min)), Box::new(move |v| v == min || (name(min) == "2.0" && name(v) == "2.0+l.1"))));
    out
}

pub fn p14(mut ctx: Ctx) -> i32 {
    ctx.hang_secs = 800;
    let thorough = ctx.thorough();
    let n = VERSIONS.len();
    let mut cases = vec![];
    let mut lists: Vec<Vec<usize>> = (0..n).map(|v| vec![v]).collect();
    for a in 0..n {
        for b in (0..n).filter(|b| *b != a) {
            lists.push(vec![a, b]);
            for c in (0..n).filter(|c| *c != a && *c != b) {
                // quick: a third of the orders
                if thorough || (a + 2 * b + c) % 3 == 0 {
                    lists.push(vec![a, b, c]);
                }
            }
        }
    }
    for l in lists {
        for f in 0..FILES_OF.len() {
            cases.push(C14::Pick(l.clone(), f));
        }
    }
    let m = PYTHONS.len();
    for f in 0..PYBI_SETS.len() {
        for a in 0..m {
            cases.push(C14::Python(vec![a], f));
            for b in (0..m).filter(|b| *b != a) {
                cases.push(C14::Python(vec![a, b], f));
                for c in (0..m).filter(|c| *c != a && *c != b) {
                    if thorough || a < b {
                        cases.push(C14::Python(vec![a, b, c], f));
                    }
                }
            }
        }
    }
    for mask in 1usize..1 << ORDERED.len() {
        let n = mask.count_ones();
        if n == 2 || n == 3 || n == 4 && (thorough || mask % 3 == 0) || thorough && n == 5 {
            cases.push(C14::Order(mask));
        }
    }
    ctx.run_cases(&cases, |c| format!("{c:?}"), |case, rep, dir| {
        let key = format!("{case:?}");
        rep.states += 1;
        rep.case(&key, true);
        let mut bench = Bench14::new(dir);
        let mut count = 0usize;
        match case {
            C14::Pick(vs, f) => {
                let k = FILES_OF.len();
                let combos: Vec<Vec<usize>> = match vs.len() {
                    1 => vec![vec![*f]],
                    2 => (0..k).map(|g| vec![*f, g]).collect(),
                    _ => (0..k * k).map(|g| vec![*f, g % k, g / k]).collect(),
                };
                let stride = match (vs.len(), thorough) {
                    (1, _) => 1,
                    (2, false) => 29,
                    (2, true) => 1,
                    (_, false) => 901,
                    (_, true) => 61,
                };
                count += vs.iter().sum::<usize>() * 7 + f;
                for files in combos {
                    let mut pins = vec![Pin::None, Pin::Gone];
                    for (i, f) in files.iter().enumerate() {
                        pins.push(Pin::Bare(i));
                        pins.extend((0..FILES_OF[*f].len()).map(|j| Pin::Of(i, j)));
                    }
                    for pin in pins {
                        for allow in [Allow::None, Allow::This, Allow::Other, Allow::All] {
                            for (text, fits) in asks(vs) {
                                count += 1;
                                if count % stride != 0 || rep.violations.len() > 2 {
                                    continue;
                                }
                                let q = Q14 { versions: vs, files: &files, pin, allow, spec: (&text, &*fits), mixed: count / stride % 3 == 0 };
                                rep.transitions += 1;
                                match bench.package(&q) {
                                    Err(m) => {
                                        let list: Vec<String> = vs.iter().zip(&files).map(|(v, f)| format!("{} with {}", VERSIONS[*v].0, FILES_OF[*f].iter().map(|(y, p, h)| format!("{}{p:?}{}", if *y { "yanked " } else { "" }, if *h { "" } else { " unhashed" })).collect::<Vec<_>>().join("+"))).collect();
                                        rep.violation(key.clone(), format!("{} | asking {text:?}, pin {pin:?}, pre-releases {allow:?}: {m}", list.join(", ")));
                                    }
                                    Ok(o) => {
                                        rep.traces += (!o.starts_with("no")) as u64;
                                        rep.outcome(o)
                                    }
                                }
                            }
                        }
                    }
                }
                if vs == &[4] {
                    rep.sample(json!({"case": key}));
                }
            }
            C14::Order(mask) => {
                let files: Vec<usize> = (0..ORDERED.len()).filter(|i| mask >> i & 1 == 1).collect();
                let mut first: Option<(Vec<usize>, String)> = None;
                orders(&files, &mut |l| {
                    if !rep.violations.is_empty() {
                        return;
                    }
                    rep.transitions += 1;
                    let named = |l: &[usize]| l.iter().map(|f| ORDERED[*f].0).collect::<Vec<_>>();
                    match (bench.ordered(l, &dir.join("own")), &first) {
                        (Err(m), _) => rep.violation(key.clone(), format!("{:?}: {m}", named(l))),
                        (Ok(got), None) => first = Some((l.to_vec(), got)),
                        (Ok(got), Some((k, was))) => {
                            rep.traces += (got != "nothing") as u64;
                            if got != *was {
                                rep.violation(key.clone(), format!("an index that lists {:?} gives {was}, and one that lists {:?} gives {got}", named(k), named(l)));
                            }
                        }
                    }
                });
                // with what is known of some of them from before
                for known in 1..1usize << files.len() - 1 {
                    if !rep.violations.is_empty() {
                        break;
                    }
                    let pick = |m: usize| -> Vec<usize> { files.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, f)| *f).collect() };
                    for m in [known, (1 << files.len()) - 1 - known] {
                        rep.transitions += 1;
                        if let Err(e) = bench.warmed(&pick(m), &files, &dir.join("own")) {
                            rep.violation(key.clone(), format!("after {:?}, {:?}: {e}", pick(m).iter().map(|f| ORDERED[*f].0).collect::<Vec<_>>(), files.iter().map(|f| ORDERED[*f].0).collect::<Vec<_>>()));
                            break;
                        }
                    }
                }
                rep.outcome(if first.map_or(true, |f| f.1 == "nothing") { "nothing, in any order" } else { "the same in any order" });
            }
            C14::Python(vs, f) => {
                let k = PYBI_SETS.len();
                let combos: Vec<Vec<usize>> = match vs.len() {
                    1 => vec![vec![*f]],
                    2 => (0..k).map(|g| vec![*f, g]).collect(),
                    _ => (0..k * k).map(|g| vec![*f, g % k, g / k]).collect(),
                };
                let stride = match (vs.len(), thorough) {
                    (1, _) => 1,
                    (2, false) => 97,
                    (2, true) => 2,
                    (_, false) => 2999,
                    (_, true) => 71,
                };
                count += vs.iter().sum::<usize>() * 11 + f * 3;
                for sets in combos {
                    let listed: Vec<(usize, usize)> = vs.iter().copied().zip(sets).collect();
                    for platforms in PLATFORM_LISTS {
                        for spec in PY_SPECS {
                            for pin in std::iter::once(None).chain(vs.iter().flat_map(|v| [Some((*v, false)), Some((*v, true))])) {
                                for yanked in std::iter::once(None).chain(vs.iter().map(|v| Some(*v))) {
                                    for allow in [false, true] {
                                        count += 1;
                                        if count % stride != 0 || rep.violations.len() > 2 {
                                            continue;
                                        }
                                        let q = Q14py { listed: &listed, yanked, spec, allow, pin, platforms, backwards: count / stride % 2 == 0 };
                                        rep.transitions += 1;
                                        match bench.python(&q) {
                                            Err(m) => rep.violation(key.clone(), format!("{:?} | asking {spec:?}, yanked {yanked:?}, pin {pin:?}, pre-releases {allow}, platforms {:?}: {m}", listed.iter().map(|(v, s)| format!("{} for {:?}", PYTHONS[*v].0, PYBI_SETS[*s].iter().map(|t| PYBI_TAGS[*t]).collect::<Vec<_>>())).collect::<Vec<_>>(), platforms.iter().map(|p| PLATFORMS[*p].0).collect::<Vec<_>>())),
                                            Ok(o) => {
                                        rep.traces += (!o.starts_with("no")) as u64;
                                        rep.outcome(o)
                                    }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    finish(ctx, Level {
        level: "model_checking",
        rule: "lists of up to three of 11 versions (pre-, post-, dev, local, epochs) in every order (quick: a third of the triples) x what files each has (yanked, python requirement, hash) x pins x pre-release settings x requirements; lists of up to three interpreter versions x their platforms' files x platform lists x pins x yanks x requirements; for longer lists every n-th combination, counted through; two to four (thorough: five) of seven files of a package (wheels that need different things, source archives, one without a hash) in every order, whose lock files must be equal byte for byte, and with every subset known from before; each resolved by the real code from a local index; states = cases, transitions = resolutions",
        assumptions: &["a pin that can't be kept may lead to the newest version or, as a comment says, the next above", "when all usable but not all listed versions are pre-releases, they may be used or not", "a file with a malformed python requirement in the index may be used or not"],
    })
}
