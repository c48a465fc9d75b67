//! Check framework: sharded case runner, reporting, evidence, known findings.
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::time::Instant;

use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one check learned; merged over all worker processes.
#[derive(Default, Debug)]
pub struct Rep {
    pub evaluations: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    /// hashes of the distinct, non-trivial cases
    pub distinct: BTreeSet<u64>,
    /// distinct observed outcomes, by class name
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<(String, String)>,
    pub notes: BTreeSet<String>,
}

pub fn h64(s: &str) -> u64 {
    // FNV-1a, good enough to count distinct cases
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

impl Rep {
    pub fn case(&mut self, sig: &str, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(h64(sig));
            // some of the cases themselves, spread over the run
            if self.evaluations.is_power_of_two() {
                let mut text: String = sig.chars().take(400).collect();
                if text.len() < sig.len() {
                    text.push('…');
                }
                self.sample(json!({ "case": text }));
            }
        }
    }
    pub fn outcome(&mut self, s: &str) {
        *self.outcomes.entry(s.to_string()).or_insert(0) += 1;
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 4 {
            self.samples.push(v);
        }
    }
    pub fn violation(&mut self, key: impl Into<String>, msg: impl Into<String>) {
        if self.violations.len() < 50 {
            self.violations.push((key.into(), msg.into()));
        }
    }
    fn to_json(&self) -> Value {
        json!({
            "e": self.evaluations, "s": self.states, "t": self.transitions, "tr": self.traces,
            "d": self.distinct, "o": self.outcomes, "sa": self.samples, "v": self.violations,
            "n": self.notes,
        })
    }
    fn merge_json(&mut self, v: &Value) {
        self.evaluations += v["e"].as_u64().unwrap();
        self.states += v["s"].as_u64().unwrap();
        self.transitions += v["t"].as_u64().unwrap();
        self.traces += v["tr"].as_u64().unwrap();
        for x in v["d"].as_array().unwrap() {
            self.distinct.insert(x.as_u64().unwrap());
        }
        for (k, n) in v["o"].as_object().unwrap() {
            *self.outcomes.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
        }
        for x in v["sa"].as_array().unwrap() {
            if self.samples.len() < 6 {
                self.samples.push(x.clone());
            }
        }
        for x in v["v"].as_array().unwrap() {
            self.violations.push((
                x[0].as_str().unwrap().to_string(),
                x[1].as_str().unwrap().to_string(),
            ));
        }
        for x in v["n"].as_array().unwrap() {
            self.notes.insert(x.as_str().unwrap().to_string());
        }
    }
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub scratch: PathBuf,
    pub verif: PathBuf,
    /// replay: only run the case with this key
    pub only: Option<String>,
    pub jobs: usize,
    pub rep: Rep,
    pub start: Instant,
    pub machinery_error: Option<String>,
    /// seconds a single case may take before it counts as a hang
    pub hang_secs: u64,
    /// workers give up root, so that what escapes them reaches nothing
    pub unprivileged: bool,
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    fn setpgid(pid: i32, pgid: i32) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setgroups(n: usize, list: *const u32) -> i32;
    fn setgid(id: u32) -> i32;
    fn setuid(id: u32) -> i32;
    fn geteuid() -> u32;
}

#[derive(Debug)]
pub enum Wait {
    Exit(i32),
    Signal(i32),
    Timeout,
}

/// Become an unprivileged user, for good.
pub fn drop_privileges() {
    unsafe {
        if geteuid() == 0 {
            setgroups(0, std::ptr::null());
            assert!(setgid(65534) == 0 && setuid(65534) == 0, "cannot drop privileges");
        }
        prctl(1, 9, 0, 0, 0); // forgotten in the change
    }
}

/// Fork, run `f` in the child (which never returns to the caller).
pub fn spawn_child<F: FnOnce() -> i32>(f: F) -> i32 {
    std::io::stdout().flush().ok();
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe { prctl(1, 9, 0, 0, 0) }; // die with the parent
        let code = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(c) => c,
            Err(_) => 101,
        };
        std::io::stdout().flush().ok();
        unsafe { _exit(code) }
    }
    pid
}

pub fn wait_child(pid: i32, timeout_s: f64) -> Wait {
    let t0 = Instant::now();
    let mut nap = 50u64;
    loop {
        let mut st = 0i32;
        let r = unsafe { waitpid(pid, &mut st, 1) };
        if r == pid {
            if st & 0x7f == 0 {
                return Wait::Exit((st >> 8) & 0xff);
            }
            return Wait::Signal(st & 0x7f);
        }
        if t0.elapsed().as_secs_f64() > timeout_s {
            unsafe { kill(pid, 9) };
            unsafe { waitpid(pid, &mut st, 0) };
            return Wait::Timeout;
        }
        super::sys::real_usleep(nap);
        nap = (nap * 2).min(5000);
    }
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{}", info);
        if std::env::var_os("VERIF_BT").is_some() {
            eprintln!("PANIC {s}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.try_with(|p| *p.borrow_mut() = s.clone()).ok();
    }));
}

/// Run code under test; a panic becomes Err("panic: ...").
pub fn guard<T>(f: impl FnOnce() -> T) -> std::result::Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }

    /// the listed findings that are not repaired: key and text
    fn known(&self) -> Vec<(String, String)> {
        let known = std::fs::read_to_string(self.verif.join("known-findings.txt")).unwrap_or_default();
        known
            .lines()
            .filter_map(|l| {
                // finding: property=<id> key=<key> | <text>
                let l = l.strip_prefix("finding: property=")?;
                let (prop, rest) = l.split_once(" key=")?;
                let (key, text) = rest.split_once(" | ")?;
                (prop == self.prop).then(|| (key.to_string(), text.to_string()))
            })
            .collect()
    }

    /// Run `f` on every item, sharded over forked worker processes. `key` names a case, for
    /// replays. Panics and crashes of the code under test while in a case are violations.
    pub fn run_cases<C>(
        &mut self,
        cases: &[C],
        key: impl Fn(&C) -> String,
        f: impl Fn(&C, &mut Rep, &Path),
    ) {
        let n = self.jobs.max(1).min(cases.len().max(1));
        let dir = self.scratch.join(format!("w{}", self.rep.evaluations));
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::set_permissions(&dir, std::os::unix::fs::PermissionsExt::from_mode(0o755)).ok();
        let mut running: Vec<(usize, i32)> = vec![];
        let hang = self.hang_secs;
        let known = self.known();
        // when there are violations, the rest need not be explored to the end
        let found = dir.join("found");
        let start = self.start;
        for w in 0..n {
            let out = dir.join(format!("{w}.json"));
            let prog = dir.join(format!("{w}.cur"));
            let wdir = dir.join(format!("{w}.d"));
            std::fs::create_dir_all(&wdir).unwrap();
            let only = self.only.clone();
            let unprivileged = self.unprivileged;
            if unprivileged {
                let open = || <std::fs::Permissions as std::os::unix::fs::PermissionsExt>::from_mode(0o777);
                std::fs::set_permissions(&dir, open()).unwrap();
                std::fs::set_permissions(&wdir, open()).unwrap();
            }
            let pid = spawn_child(|| {
                if unprivileged {
                    drop_privileges();
                }
                let mut rep = Rep::default();
                let mut new = 0;
                for (i, c) in cases.iter().enumerate() {
                    if i % n != w {
                        continue;
                    }
                    if let Some(o) = &only {
                        // a violation's key may say more after its case's
                        let k = key(c);
                        if *o != k && !o.starts_with(&format!("{k} ")) {
                            continue;
                        }
                    }
                    std::fs::write(&prog, i.to_string()).unwrap();
                    let r = guard(|| f(c, &mut rep, &wdir));
                    super::sys::clear_env();
                    if let Err(msg) = r {
                        rep.violation(key(c), msg);
                    }
                    let n = rep.violations.iter().filter(|v| known.iter().all(|k| k.0 != v.0)).count();
                    if n > new {
                        use std::io::Write;
                        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&found).unwrap();
                        f.write_all(&vec![b'x'; n - new]).unwrap();
                        new = n;
                    }
                    let all = std::fs::metadata(&found).map_or(0, |m| m.len());
                    if all >= 20 || all > 0 && start.elapsed().as_secs() > 240 {
                        break;
                    }
                }
                std::fs::write(&out, serde_json::to_vec(&rep.to_json()).unwrap()).unwrap();
                0
            });
            running.push((w, pid));
        }
        // supervise: per-case hang detection through the progress files
        let mut last: BTreeMap<usize, (String, Instant)> = BTreeMap::new();
        let mut nap = 200u64;
        while !running.is_empty() {
            let mut still = vec![];
            for (w, pid) in running {
                let out = dir.join(format!("{w}.json"));
                let cur = std::fs::read_to_string(dir.join(format!("{w}.cur"))).unwrap_or_default();
                let curkey = || {
                    cur.parse::<usize>()
                        .ok()
                        .map(|i| key(&cases[i]))
                        .unwrap_or_else(|| "?".into())
                };
                let mut st = 0i32;
                let r = unsafe { waitpid(pid, &mut st, 1) };
                if r == pid {
                    if st == 0 {
                        let v: Value =
                            serde_json::from_slice(&std::fs::read(&out).unwrap()).unwrap();
                        self.rep.merge_json(&v);
                    } else if st & 0x7f == 9 {
                        self.machinery_error = Some(format!("worker {w} was killed"));
                    } else if st & 0x7f != 0 {
                        self.rep.violation(
                            curkey(),
                            format!("the code under test crashed with signal {}", st & 0x7f),
                        );
                    } else {
                        self.machinery_error =
                            Some(format!("worker {w} exited {} in {}", st >> 8, curkey()));
                    }
                    continue;
                }
                let e = last.entry(w).or_insert((cur.clone(), Instant::now()));
                if e.0 != cur {
                    *e = (cur.clone(), Instant::now());
                } else if e.1.elapsed().as_secs() > hang {
                    unsafe { kill(pid, 9) };
                    unsafe { waitpid(pid, &mut st, 0) };
                    self.rep.violation(
                        curkey(),
                        format!("the code under test did not finish within {hang} s"),
                    );
                    continue;
                }
                still.push((w, pid));
            }
            running = still;
            super::sys::real_usleep(nap);
            nap = (nap * 2).min(20000);
        }
        std::fs::remove_dir_all(&dir).ok();
    }
}

pub struct Level {
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

/// Write evidence, print verdict lines, return the exit code.
pub fn finish(ctx: Ctx, lv: Level) -> i32 {
    let r = &ctx.rep;
    let known = ctx.known();
    let mut new = vec![];
    let mut seen_known = BTreeSet::new();
    for (k, m) in &r.violations {
        if let Some((k, t)) = known.iter().find(|(kk, _)| kk == k) {
            seen_known.insert(format!("{t} [{k}]"));
        } else {
            new.push((k.clone(), m.clone()));
        }
    }
    for t in &seen_known {
        println!("KNOWN-FINDING: property={} {}", ctx.prop, t);
    }
    let mut coverage = serde_json::Map::new();
    let samples = if r.samples.is_empty() {
        vec![json!("none")]
    } else {
        r.samples.clone()
    };
    if lv.level == "model_checking" {
        coverage.insert("states".into(), json!(r.states));
        coverage.insert("transitions".into(), json!(r.transitions));
        coverage.insert("traces_validated_against_impl".into(), json!(r.traces));
    }
    coverage.insert("evaluations".into(), json!(r.evaluations));
    coverage.insert("distinct_nontrivial".into(), json!(r.distinct.len()));
    coverage.insert("rule".into(), json!(lv.rule));
    coverage.insert("samples".into(), json!(samples));
    coverage.insert("outcome_classes".into(), json!(r.outcomes));
    coverage.insert("notes".into(), json!(r.notes));
    coverage.insert("exhaustive".into(), json!(ctx.machinery_error.is_none() && ctx.only.is_none()));
    let ev = json!({
        "property": ctx.prop,
        "tier": if ctx.thorough() {"thorough"} else {"quick"},
        "seed": ctx.seed,
        "level": lv.level,
        "coverage": coverage,
        "assumptions": lv.assumptions,
        "wall_s": ctx.start.elapsed().as_secs_f64(),
        "violations": new.len(),
    });
    let evdir = ctx.verif.join("evidence");
    std::fs::create_dir_all(&evdir).ok();
    if ctx.only.is_none() {
        std::fs::write(
            evdir.join(format!("{}.json", ctx.prop)),
            serde_json::to_vec_pretty(&ev).unwrap(),
        )
        .unwrap();
    }
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} states, {} transitions, {} traces, {} outcome classes, {:.1}s",
        ctx.prop, r.evaluations, r.distinct.len(), r.states, r.transitions, r.traces,
        r.outcomes.len(), ctx.start.elapsed().as_secs_f64()
    );
    if std::env::var_os("VERIF_VERBOSE").is_some() {
        for (k, n) in &r.outcomes {
            println!("  outcome {n:8} {k}");
        }
        for n in &r.notes {
            println!("  note {n}");
        }
    }
    if !new.is_empty() {
        let rdir = evdir.join("replay");
        std::fs::create_dir_all(&rdir).ok();
        for (i, (k, m)) in new.iter().take(10).enumerate() {
            let p = rdir.join(format!("{}-{}.json", ctx.prop, i));
            std::fs::write(
                &p,
                serde_json::to_vec_pretty(&json!({
                    "property": ctx.prop, "tier": if ctx.thorough() {"thorough"} else {"quick"},
                    "case": k, "what": m,
                    "replay": format!("VERIF_TIER={} /verif/bin/check {} --replay {}",
                        if ctx.thorough() {"thorough"} else {"quick"}, ctx.prop, p.display()),
                }))
                .unwrap(),
            )
            .ok();
            println!("  {k}: {m}");
            println!("VIOLATION property={} replay={}", ctx.prop, p.display());
        }
        return 1;
    }
    if let Some(e) = &ctx.machinery_error {
        eprintln!("machinery error: {e}");
        return 2;
    }
    if r.evaluations == 0 {
        eprintln!("machinery error: nothing was evaluated");
        return 2;
    }
    0
}
