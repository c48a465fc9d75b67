//! P01..P04: the on-disk stores.
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

use serde_json::json;

use super::core::{finish, guard, Ctx, Level, Rep};
use super::sched::{explore, run_one, Body, Exec};
use crate::kvstore::{KVDirStore, KVFileStore};
use crate::prelude::*;

pub fn key(i: usize) -> ArtifactHash {
    // same leading characters, so that different keys share their directories on disk
    let mut raw = vec![7u8; 32];
    raw[31] = i as u8;
    ArtifactHash { mode: "sha256".into(), raw_data: raw }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum FOp {
    Gos(usize),
    GosErr(usize),
    Get(usize),
    Lie(usize),
    Over(usize),
    Rm(usize),
    Abort(usize),
}
use FOp::*;

impl FOp {
    fn key(self) -> usize {
        match self {
            Gos(k) | GosErr(k) | Get(k) | Lie(k) | Over(k) | Rm(k) | Abort(k) => k,
        }
    }
}

/// Values are self-describing and long enough to be torn.
pub fn value(id: u32) -> Vec<u8> {
    let mut v = format!("<{id}:").into_bytes();
    v.extend(std::iter::repeat(b'a' + (id % 26) as u8).take(3 + (id % 5) as usize * 7));
    v.extend(format!(":{id}>").as_bytes());
    v
}

fn decode(b: &[u8]) -> std::result::Result<u32, String> {
    let s = String::from_utf8_lossy(b).to_string();
    let id: u32 = s
        .strip_prefix('<')
        .and_then(|x| x.split(':').next())
        .and_then(|x| x.parse().ok())
        .ok_or_else(|| format!("not a stored value: {s:?}"))?;
    if value(id) != b {
        return Err(format!("incomplete or mixed value: {s:?}"));
    }
    Ok(id)
}

/// How one operation ended. `seen`: the value observed (None: absent); `filled`: the callback ran.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
struct Out {
    seen: Option<u32>,
    filled: bool,
    err: bool,
}

#[derive(Clone, Debug)]
struct Rec {
    op: FOp,
    id: u32,
    call: u64,
    ret: u64,
    out: Out,
}

fn write_value(w: &mut dyn Write, id: u32) -> Result<()> {
    let v = value(id);
    let mid = v.len() / 2;
    w.write_all(&v[..mid])?;
    w.write_all(&v[mid..])?;
    Ok(())
}

/// A scheduling point of our own: callers read returned values some time after the call.
fn user_point(root: &Path) {
    std::fs::metadata(root).ok();
}

fn do_op(store: &KVFileStore, store_root: &Path, op: FOp, id: u32) -> std::result::Result<Out, String> {
    let k = key(op.key());
    let mut filled = false;
    let rd = |r: &mut dyn ReadPlusSeekD| -> std::result::Result<u32, String> {
        let mut v = vec![];
        r.read_to_end(&mut v).map_err(|e| format!("reading a returned value: {e}"))?;
        decode(&v)
    };
    match op {
        Gos(_) | GosErr(_) => {
            let r = store.get_or_set(&k, |w| {
                filled = true;
                if matches!(op, GosErr(_)) {
                    w.write_all(b"<partial")?;
                    bail!("the computation failed");
                }
                write_value(w, id)
            });
            match r {
                Ok(mut r) => {
                    user_point(store_root);
                    let mut v = vec![];
                    r.read_to_end(&mut v).map_err(|e| e.to_string())?;
                    Ok(Out { seen: Some(decode(&v)?), filled, err: false })
                }
                Err(_) => Ok(Out { seen: None, filled, err: true }),
            }
        }
        Get(_) => match store.get(&k) {
            None => Ok(Out { seen: None, filled, err: false }),
            Some(mut r) => {
                user_point(store_root);
                let mut v = vec![];
                r.read_to_end(&mut v).map_err(|e| e.to_string())?;
                Ok(Out { seen: Some(decode(&v)?), filled, err: false })
            }
        },
        Lie(_) => match store.lock_if_exists(&k) {
            None => Ok(Out { seen: None, filled, err: false }),
            Some(l) => match l.reader() {
                None => Ok(Out { seen: None, filled, err: false }),
                Some(mut r) => Ok(Out { seen: Some(rd(&mut r)?), filled, err: false }),
            },
        },
        Over(_) => {
            let l = match store.lock(&k) {
                Ok(l) => l,
                Err(_) => return Ok(Out { seen: None, filled, err: true }),
            };
            let seen = match l.reader() {
                None => None,
                Some(mut r) => Some(rd(&mut r)?),
            };
            let go = || -> Result<Vec<u8>> {
                let mut w = l.begin()?;
                write_value(&mut w, id)?;
                let mut r = w.commit()?;
                r.seek(SeekFrom::Start(0))?;
                slurp(&mut r)
            };
            match go() {
                Err(_) => Ok(Out { seen, filled, err: true }),
                Ok(v) => {
                    let got = decode(&v)?;
                    if got != id {
                        return Err(format!("commit of value {id} handed back value {got}"));
                    }
                    Ok(Out { seen, filled: true, err: false })
                }
            }
        }
        Rm(_) => {
            let l = match store.lock(&k) {
                Ok(l) => l,
                Err(_) => return Ok(Out { seen: None, filled, err: true }),
            };
            let seen = match l.reader() {
                None => None,
                Some(mut r) => Some(rd(&mut r)?),
            };
            let err = if seen.is_some() { l.remove().is_err() } else { false };
            Ok(Out { seen, filled, err })
        }
        Abort(_) => {
            let l = match store.lock(&k) {
                Ok(l) => l,
                Err(_) => return Ok(Out { seen: None, filled, err: true }),
            };
            let seen = match l.reader() {
                None => None,
                Some(mut r) => Some(rd(&mut r)?),
            };
            if let Ok(mut w) = l.begin() {
                w.write_all(b"<abandoned").ok();
            }
            Ok(Out { seen, filled, err: false })
        }
    }
}

trait ReadPlusSeekD: Read {}
impl<T: Read> ReadPlusSeekD for T {}

/// The sequential reference: a map from key to value.
fn spec(state: &mut [Option<u32>; 2], op: FOp, id: u32) -> Out {
    let s = &mut state[op.key()];
    let ok = |seen| Out { seen, filled: false, err: false };
    match op {
        Gos(_) => match *s {
            Some(v) => ok(Some(v)),
            None => {
                *s = Some(id);
                Out { seen: Some(id), filled: true, err: false }
            }
        },
        GosErr(_) => match *s {
            Some(v) => ok(Some(v)),
            None => Out { seen: None, filled: true, err: true },
        },
        Get(_) | Lie(_) | Abort(_) => ok(*s),
        Over(_) => {
            let old = *s;
            *s = Some(id);
            Out { seen: old, filled: true, err: false }
        }
        Rm(_) => {
            let old = *s;
            *s = None;
            ok(old)
        }
    }
}

fn linearizable(recs: &[Rec], init: [Option<u32>; 2], fin: [Option<u32>; 2]) -> bool {
    fn go(recs: &[Rec], done: u32, st: [Option<u32>; 2], fin: &[Option<u32>; 2]) -> bool {
        if done == (1u32 << recs.len()) - 1 {
            return st == *fin;
        }
        for (i, r) in recs.iter().enumerate() {
            if done & (1 << i) != 0 {
                continue;
            }
            // minimal: no other pending op returned before this one was called
            if recs.iter().enumerate().any(|(j, q)| j != i && done & (1 << j) == 0 && q.ret < r.call) {
                continue;
            }
            let mut s2 = st;
            if spec(&mut s2, r.op, r.id) == r.out && go(recs, done | (1 << i), s2, fin) {
                return true;
            }
        }
        false
    }
    go(recs, 0, init, &fin)
}

#[derive(Clone, Debug)]
struct Scen {
    name: String,
    init: bool,
    threads: Vec<Vec<FOp>>,
    bound: usize,
    fresh_store: bool,
}

fn run_schedule(sc: &Scen, dir: &Path, prefix: &[usize]) -> (Exec, std::result::Result<Vec<Rec>, String>) {
    static N: AtomicU64 = AtomicU64::new(0);
    let base = dir.join(format!("s{}", N.fetch_add(1, Ordering::Relaxed)));
    let root = base.to_str().unwrap().to_string();
    std::fs::create_dir_all(&base).unwrap();
    let mut init = [None, None];
    if sc.init {
        let st = KVFileStore::new(&base).unwrap();
        do_op(&st, &base, Over(0), 1).unwrap();
        init[0] = Some(1);
    } else if !sc.fresh_store {
        KVFileStore::new(&base).unwrap();
    }
    let clock = Arc::new(AtomicU64::new(1));
    let recs: Arc<Mutex<Vec<Rec>>> = Default::default();
    let errs: Arc<Mutex<Vec<String>>> = Default::default();
    let ids = Arc::new(AtomicUsize::new(0));
    let _ = ids;
    let mut bodies: Vec<Body> = vec![];
    for (t, prog) in sc.threads.iter().enumerate() {
        let prog = prog.clone();
        let (clock, recs, errs, base) = (clock.clone(), recs.clone(), errs.clone(), base.clone());
        let pre = if sc.fresh_store { None } else { Some(KVFileStore::new(&base).unwrap()) };
        bodies.push(Box::new(move || {
            let r = guard(|| {
                let store = match pre {
                    Some(s) => s,
                    None => match KVFileStore::new(&base) {
                        Ok(s) => s,
                        Err(e) => return Err(format!("opening the store: {e}")),
                    },
                };
                for (i, op) in prog.iter().enumerate() {
                    let id = (10 + t * 10 + i) as u32;
                    let call = clock.fetch_add(1, Ordering::SeqCst);
                    let out = do_op(&store, &base, *op, id).map_err(|e| format!("T{t} {op:?}: {e}"))?;
                    let ret = clock.fetch_add(1, Ordering::SeqCst);
                    recs.lock().unwrap().push(Rec { op: *op, id, call, ret, out });
                }
                Ok(())
            });
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) | Err(e) => errs.lock().unwrap().push(e),
            }
        }));
    }
    let ex = run_one(&root, bodies, prefix);
    let recs: Vec<Rec> = recs.lock().unwrap().clone();
    let errs = errs.lock().unwrap().clone();
    let mut verdict = Ok(recs.clone());
    if let Some(d) = &ex.deadlock {
        verdict = Err(d.clone());
    } else if let Some(e) = errs.first() {
        verdict = Err(e.clone());
    } else if ex.diverged.is_none() {
        // what a later reader finds
        let st = KVFileStore::new(&base).unwrap();
        let mut fin = [None, None];
        for k in 0..2 {
            match do_op(&st, &base, Get(k), 0) {
                Ok(o) => fin[k] = o.seen,
                Err(e) => verdict = Err(format!("final read: {e}")),
            }
        }
        if verdict.is_ok() && !linearizable(&recs, init, fin) {
            verdict = Err(format!(
                "no sequential order explains: {} final={fin:?}",
                recs.iter()
                    .map(|r| format!("{:?}#{}@{}-{}={:?}", r.op, r.id, r.call, r.ret, r.out))
                    .collect::<Vec<_>>()
                    .join("; ")
            ));
        }
    }
    std::fs::remove_dir_all(&base).ok();
    (ex, verdict)
}

pub fn p01(mut ctx: Ctx) -> i32 {
    let mut scens = vec![];
    let one = [Gos(0), GosErr(0), Get(0), Lie(0), Over(0), Rm(0), Abort(0)];
    let mut add = |init: bool, threads: Vec<Vec<FOp>>, bound: usize, fresh: bool| {
        scens.push(Scen {
            name: format!("init={init} fresh={fresh} bound={bound} {threads:?}"),
            init,
            threads,
            bound,
            fresh_store: fresh,
        })
    };
    let b2 = ctx.pick(2, 3);
    for init in [false, true] {
        for i in 0..one.len() {
            for j in i..one.len() {
                add(init, vec![vec![one[i]], vec![one[j]]], b2, false);
            }
        }
    }
    // distinct keys that share directories, and stores being opened at the same time
    add(false, vec![vec![Gos(0)], vec![Gos(1)]], b2, false);
    add(false, vec![vec![Gos(0)], vec![Gos(1)]], ctx.pick(1, 2), true);
    add(false, vec![vec![Gos(0)], vec![Gos(0)]], ctx.pick(1, 2), true);
    add(false, vec![vec![Gos(0), Get(1)], vec![Gos(1), Get(0)]], ctx.pick(1, 2), false);
    add(true, vec![vec![Over(0), Get(0)], vec![Over(0), Get(0)]], ctx.pick(1, 2), false);
    add(true, vec![vec![Rm(0), Gos(0)], vec![Gos(0), Get(0)]], ctx.pick(1, 2), false);
    // three threads: lock handed over while others arrive
    let b3 = ctx.pick(1, 2);
    for init in [false, true] {
        for t in [
            [Gos(0), Gos(0), Gos(0)],
            [Rm(0), Gos(0), Gos(0)],
            [Over(0), Over(0), Get(0)],
            [Over(0), Rm(0), Gos(0)],
            [GosErr(0), Gos(0), Gos(0)],
            [Abort(0), Gos(0), Lie(0)],
            [Rm(0), Gos(0), Get(0)],
            [Rm(0), Over(0), Over(0)],
        ] {
            add(init, t.iter().map(|x| vec![*x]).collect(), b3, false);
        }
    }
    let all = std::sync::Mutex::new(());
    let _ = all;
    // biggest first, for balance
    scens.sort_by_key(|s| std::cmp::Reverse(s.threads.iter().map(|t| t.len()).sum::<usize>() * 10 + s.bound));
    ctx.run_cases(
        &scens,
        |s| s.name.clone(),
        |sc, rep, dir| {
            let mut outcomes = std::collections::BTreeSet::new();
            let mut first: Option<(Vec<usize>, String)> = None;
            let mut sample = None;
            let st = explore(sc.bound, 400_000, |prefix| {
                let (ex, v) = run_schedule(sc, dir, prefix);
                let mut stop = false;
                match v {
                    Ok(recs) => {
                        let mut o: Vec<String> =
                            recs.iter().map(|r| format!("{:?}#{}:{:?}", r.op, r.id, r.out)).collect();
                        o.sort();
                        outcomes.insert(o.join(" "));
                        if sample.is_none() && ex.preemptions_before(ex.points.len()) >= 1 {
                            sample = Some(json!({"scenario": sc.name, "schedule": ex.trace}));
                        }
                    }
                    Err(m) => {
                        first = Some((ex.choices(), format!("{m}; schedule: {}", ex.trace.join(" | "))));
                        stop = true;
                    }
                }
                (ex, stop)
            });
            if let Some((ch, m)) = first {
                // a failure counts only if the same schedule fails again
                let (_, again) = run_schedule(sc, dir, &ch);
                match again {
                    Err(_) => rep.violation(sc.name.clone(), m),
                    Ok(_) => panic!("schedule {ch:?} failed once and then passed: {m}"),
                }
            }
            if let Some(d) = st.diverged {
                panic!("replaying a prefix diverged: {d}");
            }
            rep.evaluations += st.executions;
            rep.traces += st.executions;
            rep.states += st.nodes;
            rep.transitions += st.transitions;
            for o in &outcomes {
                rep.distinct.insert(super::core::h64(&format!("{}{}", sc.name, o)));
                rep.outcome(&format!("{} distinct results", outcomes.len().min(4)));
            }
            if st.capped {
                rep.notes.insert(format!("capped: {}", sc.name));
            }
            if let Some(s) = sample {
                rep.sample(s);
            }
        },
    );
    finish(ctx, Level {
        level: "model_checking",
        rule: "every schedule of the scenario's threads over the real store with at most `bound` preemptions, switching at every file-system operation; states = scheduler decision nodes, transitions = file-system steps executed, traces = complete executions checked for linearizability against a map; distinct = distinct (scenario, results) pairs",
        assumptions: &["threads stand for processes: flock(2) excludes per open file description, so two threads with separate opens behave like two processes", "a single file-system operation is atomic"],
    })
}

/// Run a history; returns per-op results up to the crash/err.
fn run_history(base: &Path, hist: &[FOp]) -> std::result::Result<Vec<Out>, String> {
    let store = KVFileStore::new(base).map_err(|e| format!("open: {e}"))?;
    let mut outs = vec![];
    for (i, op) in hist.iter().enumerate() {
        outs.push(do_op(&store, base, *op, 10 + i as u32)?);
    }
    Ok(outs)
}

/// After a crash: every entry absent or complete (one of `allowed`), and the store works.
fn check_recovered(base: &Path, allowed: &[Vec<u32>; 2], may_be_absent: [bool; 2]) -> std::result::Result<String, String> {
    let st = KVFileStore::new(base).map_err(|e| format!("the store does not open after the crash: {e}"))?;
    let mut desc = String::new();
    for k in 0..2 {
        let o = do_op(&st, base, Get(k), 0).map_err(|e| format!("after the crash, key {k}: {e}"))?;
        match o.seen {
            None => {
                if !may_be_absent[k] {
                    return Err(format!("key {k} was durable and never removed, but is gone"));
                }
                desc.push_str("absent ")
            }
            Some(v) => {
                if !allowed[k].contains(&v) {
                    return Err(format!("key {k} holds value {v}, which nobody stored under it"));
                }
                desc.push_str("complete ")
            }
        }
        // a second look through a lock, then normal use
        let o2 = do_op(&st, base, Gos(k), 90).map_err(|e| format!("reuse of key {k}: {e}"))?;
        if o2.err {
            return Err(format!("get_or_set on key {k} fails after the crash"));
        }
        if o.seen.is_some() && o2.seen != o.seen {
            return Err(format!("key {k} changed from {:?} to {:?}", o.seen, o2.seen));
        }
        let o3 = do_op(&st, base, Over(k), 91).map_err(|e| format!("rewrite of key {k}: {e}"))?;
        let o4 = do_op(&st, base, Get(k), 0).map_err(|e| format!("reread of key {k}: {e}"))?;
        if o3.err || o4.seen != Some(91) {
            return Err(format!("key {k} cannot be rewritten after the crash"));
        }
    }
    Ok(desc)
}

fn fresh_dir(dir: &Path) -> PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    let base = dir.join(format!("c{}", N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&base).unwrap();
    base
}

fn histories(depth: usize) -> Vec<(bool, Vec<FOp>)> {
    let ops = [Gos(0), Over(0), Rm(0), Gos(1), GosErr(0), Abort(0), Over(1)];
    let mut all: Vec<Vec<FOp>> = vec![];
    let mut cur: Vec<Vec<FOp>> = vec![vec![]];
    for _ in 0..depth {
        let mut next = vec![];
        for h in &cur {
            for o in ops {
                let mut h2 = h.clone();
                h2.push(o);
                next.push(h2);
            }
        }
        all.extend(next.iter().cloned());
        cur = next;
    }
    let mut out = vec![];
    for h in all {
        out.push((false, h.clone()));
        out.push((true, h));
    }
    out
}

fn allowed_values(init: bool, hist: &[FOp]) -> ([Vec<u32>; 2], [bool; 2]) {
    let mut a = [vec![], vec![]];
    let mut absent = [!init, true];
    if init {
        a[0].push(1);
    }
    for (i, op) in hist.iter().enumerate() {
        match op {
            Gos(k) | Over(k) => a[*k].push(10 + i as u32),
            Rm(k) => absent[*k] = true,
            _ => {}
        }
    }
    (a, absent)
}

pub fn p02(mut ctx: Ctx) -> i32 {
    use super::crash::{disks, snapshot, Fault, FaultEnv, Logger};
    use super::sys::with_env;
    let hs = histories(ctx.pick(2, 3));
    let thorough = ctx.thorough();
    ctx.run_cases(
        &hs,
        |h| format!("{h:?}"),
        |(init, hist), rep, dir| {
            let name = format!("init={init} {hist:?}");
            let prepare = || {
                let base = fresh_dir(dir);
                let st = KVFileStore::new(&base).unwrap();
                if *init {
                    do_op(&st, &base, Over(0), 1).unwrap();
                }
                base
            };
            let (allowed, absent) = allowed_values(*init, hist);
            // (A) the process dies at operation n (or in the middle of write n)
            let mut n = 0;
            loop {
                let mut done = false;
                for f in [Fault::Die, Fault::DieTorn] {
                    let base = prepare();
                    let env = FaultEnv::new(&base, vec![(n, f)], true);
                    with_env(&env, || guard(|| run_history(&base, hist).ok()).ok());
                    done |= !env.crashed();
                    let at = env.log.borrow().last().map(|x| x.1.clone()).unwrap_or_default();
                    rep.traces += 1;
                    rep.transitions += env.ops() as u64;
                    rep.states += 1;
                    match check_recovered(&base, &allowed, absent) {
                        Ok(d) => {
                            rep.case(&format!("{name} {n} {f:?}"), env.crashed());
                            rep.outcome(&format!("process death: {d}"));
                            if n == 9 {
                                rep.sample(json!({"history": name, "dies_at": at, "how": format!("{f:?}"), "found": d}));
                            }
                        }
                        Err(m) => rep.violation(format!("{:?}", (init, hist)), format!("{name}: process death at operation {n} ({f:?}, {at}): {m}")),
                    }
                    std::fs::remove_dir_all(&base).ok();
                }
                if done {
                    break;
                }
                n += 1;
            }
            // (A2) a second death while the survivor repairs
            if thorough && hist.len() <= 2 {
                for n in 0..n {
                    let mut m = 0;
                    loop {
                        let base = prepare();
                        let env = FaultEnv::new(&base, vec![(n, Fault::DieTorn)], true);
                        with_env(&env, || guard(|| run_history(&base, hist).ok()).ok());
                        let env2 = FaultEnv::new(&base, vec![(m, Fault::DieTorn)], true);
                        with_env(&env2, || guard(|| {
                            let st = KVFileStore::new(&base).ok()?;
                            do_op(&st, &base, Gos(0), 50).ok()?;
                            do_op(&st, &base, Over(0), 51).ok()
                        }).ok());
                        let (mut a, ab) = (allowed.clone(), absent);
                        a[0].push(50);
                        a[0].push(51);
                        rep.traces += 1;
                        rep.states += 1;
                        rep.case(&format!("{name} {n} {m} twice"), env2.crashed());
                        if let Err(msg) = check_recovered(&base, &a, ab) {
                            rep.violation(format!("{:?}", (init, hist)), format!("{name}: deaths at {n} and then {m}: {msg}"));
                        }
                        std::fs::remove_dir_all(&base).ok();
                        if !env2.crashed() {
                            break;
                        }
                        m += 1;
                    }
                }
            }
            // (B) power failure: every disk the log of a complete run can leave
            let base = prepare();
            let (bd, bf) = snapshot(&base);
            let lg = Logger::new(&base);
            with_env(&lg, || guard(|| run_history(&base, hist).ok()).ok());
            let log = lg.log.borrow().clone();
            let (ds, considered) = disks(&log, &bf, &bd);
            rep.transitions += considered;
            for d in &ds {
                let to = fresh_dir(dir);
                d.materialize(base.to_str().unwrap(), to.to_str().unwrap());
                rep.states += 1;
                rep.traces += 1;
                rep.case(&format!("{name} {d:?}"), true);
                match check_recovered(&to, &allowed, absent) {
                    Ok(x) => rep.outcome(&format!("power failure: {x}")),
                    Err(m) => rep.violation(format!("{:?}", (init, hist)), format!("{name}: power failure leaving {:?}: {m}", d.files)),
                }
                std::fs::remove_dir_all(&to).ok();
            }
            std::fs::remove_dir_all(&base).ok();
        },
    );
    finish(ctx, Level {
        level: "fault_enumeration",
        rule: "every history of store operations up to the depth, x every file-system operation as the moment of process death (also in mid-write), and x every disk a power failure can leave (directory operations persist in order up to any cut; any subset of unsynced writes is lost or zero); after each, the real store is reopened and used. non-trivial: the fault really happened",
        assumptions: &["directory operations reach the disk in issue order (journaled metadata)", "a rename is atomic on disk"],
    })
}

pub fn p03(mut ctx: Ctx) -> i32 {
    use super::crash::{Fault, FaultEnv};
    use super::sys::{self, with_env, K};
    let mut hs: Vec<(bool, Vec<FOp>)> = vec![];
    let ops = [Gos(0), Over(0), Rm(0), GosErr(0), Abort(0), Get(0), Lie(0)];
    for init in [false, true] {
        for a in ops {
            hs.push((init, vec![a]));
            for b in [Gos(0), Over(0)] {
                hs.push((init, vec![a, b]));
            }
        }
    }
    let deviations = ctx.pick(1, 2);
    ctx.run_cases(
        &hs,
        |h| format!("{h:?}"),
        |(init, hist), rep, dir| {
            let name = format!("init={init} {hist:?}");
            let faults = [
                Fault::Errno(sys::EIO),
                Fault::Errno(sys::ENOSPC),
                Fault::Errno(sys::EACCES),
                Fault::Errno(sys::EINTR),
                Fault::ShortHalf,
            ];
            let mut work: Vec<Vec<(usize, Fault)>> = vec![vec![]];
            while let Some(plan) = work.pop() {
                let base = fresh_dir(dir);
                let st = KVFileStore::new(&base).unwrap();
                if *init {
                    do_op(&st, &base, Over(0), 1).unwrap();
                }
                let env = FaultEnv::new(&base, plan.clone(), true);
                let mut state = [if *init { Some(1) } else { None }, None];
                let mut bad: Option<String> = None;
                let mut errs = 0;
                let r = with_env(&env, || guard(|| {
                    for (i, op) in hist.iter().enumerate() {
                        let id = 10 + i as u32;
                        let n0 = env.ops();
                        let out = match do_op(&st, &base, *op, id) {
                            Ok(o) => o,
                            Err(e) => { bad = Some(format!("{op:?}: {e}")); return }
                        };
                        let n1 = env.ops();
                        let log = env.log.borrow();
                        let hit: Vec<_> = plan.iter().filter(|(k, _)| *k >= n0 && *k < n1).collect();
                        let benign = hit.iter().all(|(k, f)| match f {
                            // the store promises to retry an interrupted lock; std retries writes
                            Fault::Errno(sys::EINTR) => matches!(log[*k].0, K::Flock | K::Write | K::Open),
                            Fault::ShortHalf => true,
                            _ => false,
                        });
                        drop(log);
                        let old = state[0];
                        let mut want = state;
                        let w = spec(&mut want, *op, id);
                        // what is really there now
                        let now = sys::quiet(|| do_op(&KVFileStore::new(&base).unwrap(), &base, Get(0), 0));
                        let now = match now {
                            Ok(o) => o.seen,
                            Err(e) => { bad = Some(format!("after {op:?}: {e}")); return }
                        };
                        if benign {
                            if out != w || now != want[0] {
                                bad = Some(format!("{op:?} with only retryable faults gave {out:?}, entry {now:?}; expected {w:?}, {:?}", want[0]));
                                return;
                            }
                        } else {
                            let writes = matches!(op, Gos(_) | Over(_));
                            let fine = match (op, out.err) {
                                // success means the entry is what the caller was handed
                                (Gos(_) | GosErr(_), false) => out.seen.is_some() && now == out.seen,
                                (Over(_), false) => now == Some(id),
                                (Rm(_), false) => now.is_none() || (out.seen.is_none() && now == old),
                                (Get(_) | Lie(_) | Abort(_), _) => now == old && (out.seen == old || out.seen.is_none()),
                                (_, true) => now == old || (writes && now == Some(id)) || (matches!(op, Rm(_)) && now.is_none()),
                            };
                            if !fine {
                                bad = Some(format!("{op:?} gave {out:?} and left the entry {now:?} (was {old:?})"));
                                return;
                            }
                            errs += out.err as u32;
                        }
                        state[0] = now;
                    }
                }));
                if let Err(e) = r {
                    bad = Some(e);
                }
                // faults over: the store must be fully usable
                if bad.is_none() {
                    let (mut a, mut ab) = ([vec![], vec![]], [true, true]);
                    if let Some(v) = state[0] { a[0].push(v); ab[0] = false; }
                    if let Err(m) = check_recovered(&base, &a, ab) {
                        bad = Some(m);
                    }
                }
                rep.traces += 1;
                rep.states += 1;
                rep.transitions += env.ops() as u64;
                rep.case(&format!("{name} {plan:?}"), !plan.is_empty());
                rep.outcome(if errs > 0 { "error reported" } else { "absorbed" });
                if plan.len() == 1 && plan[0].0 == 7 {
                    rep.sample(json!({"history": name, "fault": format!("{plan:?}"), "at": env.log.borrow().get(7).map(|x| x.1.clone())}));
                }
                if let Some(m) = bad {
                    rep.violation(format!("{:?}", (init, hist)), format!("{name} with faults {plan:?}: {m}"));
                    std::fs::remove_dir_all(&base).ok();
                    return;
                }
                if plan.len() < deviations {
                    let from = plan.last().map(|x| x.0 + 1).unwrap_or(0);
                    let log = env.log.borrow();
                    for k in from..env.ops() {
                        for f in faults {
                            let applies = match (f, log[k].0) {
                                (Fault::ShortHalf, kind) => kind == K::Write,
                                (Fault::Errno(sys::EINTR), kind) => matches!(kind, K::Flock | K::Write | K::Open),
                                (Fault::Errno(sys::ENOSPC), kind) => matches!(kind, K::Write | K::Open | K::Mkdir | K::Rename | K::Sync),
                                _ => true,
                            };
                            if applies {
                                let mut p = plan.clone();
                                p.push((k, f));
                                work.push(p);
                            }
                        }
                    }
                }
                std::fs::remove_dir_all(&base).ok();
            }
        },
    );
    finish(ctx, Level {
        level: "fault_enumeration",
        rule: "every history x every assignment of at most `deviations` faults (EIO, ENOSPC, EACCES, EINTR, short write) to its file-system operations; after every operation the entry is compared with the reference map. non-trivial: at least one fault injected",
        assumptions: &["faults are errors reported by the kernel, not silent corruption"],
    })
}

// ---- directory store ------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum DOp {
    DGos(usize),
    DErr(usize),
}

fn tree(id: u32) -> Vec<(String, Vec<u8>)> {
    vec![
        ("a".into(), value(id)),
        ("sub/b".into(), value(id + 1000)),
        ("sub/deep/c".into(), value(id + 2000)),
    ]
}

fn read_tree(p: &Path) -> std::result::Result<u32, String> {
    let mut found = std::collections::BTreeMap::new();
    let mut stack = vec![(p.to_path_buf(), String::new())];
    while let Some((d, pre)) = stack.pop() {
        let rd = std::fs::read_dir(&d).map_err(|e| format!("{}: {e}", d.display()))?;
        for e in rd {
            let e = e.map_err(|e| e.to_string())?;
            let n = format!("{pre}{}", e.file_name().to_string_lossy());
            if e.path().is_dir() {
                stack.push((e.path(), format!("{n}/")));
            } else {
                found.insert(n, std::fs::read(e.path()).map_err(|e| e.to_string())?);
            }
        }
    }
    let a = found.get("a").ok_or_else(|| format!("incomplete directory: {:?}", found.keys()))?;
    let id = decode(a)?;
    let want: std::collections::BTreeMap<_, _> = tree(id).into_iter().collect();
    if want != found {
        return Err(format!("incomplete or mixed directory: {:?}", found.keys()));
    }
    Ok(id)
}

fn do_dop(store: &KVDirStore, op: DOp, id: u32) -> std::result::Result<Out, String> {
    let mut filled = false;
    let (k, fail) = match op {
        DOp::DGos(k) => (k, false),
        DOp::DErr(k) => (k, true),
    };
    let r = store.get_or_set(&key(k), |t| {
        filled = true;
        for (i, (n, c)) in tree(id).into_iter().enumerate() {
            let p = t.join(n);
            std::fs::create_dir_all(p.parent().unwrap())?;
            std::fs::write(p, c)?;
            if fail && i == 1 {
                bail!("the computation failed");
            }
        }
        Ok(())
    });
    match r {
        Ok(p) => Ok(Out { seen: Some(super::sys::quiet(|| read_tree(&p))?), filled, err: false }),
        Err(_) => Ok(Out { seen: None, filled, err: true }),
    }
}

/// What is stored, without going through the store's own write path.
fn dir_state(base: &Path, k: usize) -> std::result::Result<Option<u32>, String> {
    let st = KVDirStore::new(base).map_err(|e| e.to_string())?;
    let l = st.lock(&key(k)).map_err(|e| format!("lock after the fault: {e}"))?;
    if l.exists() {
        Ok(Some(read_tree(&l)?))
    } else {
        Ok(None)
    }
}

fn dspec(state: &mut [Option<u32>; 2], op: DOp, id: u32) -> Out {
    let (k, fail) = match op {
        DOp::DGos(k) => (k, false),
        DOp::DErr(k) => (k, true),
    };
    match (state[k], fail) {
        (Some(v), _) => Out { seen: Some(v), filled: false, err: false },
        (None, false) => {
            state[k] = Some(id);
            Out { seen: Some(id), filled: true, err: false }
        }
        (None, true) => Out { seen: None, filled: true, err: true },
    }
}

#[derive(Clone, Debug)]
enum DCase {
    Sched { init: bool, threads: Vec<Vec<DOp>>, bound: usize },
    Fault { init: bool, hist: Vec<DOp>, deviations: usize },
}

pub fn p04(mut ctx: Ctx) -> i32 {
    use super::crash::{Fault, FaultEnv};
    use super::sys::{self, with_env, K};
    use DOp::*;
    let mut cases = vec![];
    let (b2, b3) = (ctx.pick(2, 3), ctx.pick(1, 2));
    for init in [false, true] {
        for t in [
            vec![vec![DGos(0)], vec![DGos(0)]],
            vec![vec![DErr(0)], vec![DGos(0)]],
            vec![vec![DErr(0)], vec![DErr(0)]],
            vec![vec![DGos(0)], vec![DGos(1)]],
        ] {
            cases.push(DCase::Sched { init, threads: t, bound: b2 });
        }
        for t in [
            vec![vec![DGos(0)], vec![DGos(0)], vec![DGos(0)]],
            vec![vec![DErr(0)], vec![DGos(0)], vec![DGos(0)]],
            vec![vec![DErr(0)], vec![DErr(0)], vec![DGos(0)]],
            vec![vec![DGos(0), DGos(1)], vec![DGos(1), DGos(0)]],
        ] {
            cases.push(DCase::Sched { init, threads: t, bound: b3 });
        }
        for h in [
            vec![DGos(0)],
            vec![DErr(0)],
            vec![DErr(0), DGos(0)],
            vec![DGos(0), DGos(0)],
            vec![DGos(0), DGos(1)],
        ] {
            cases.push(DCase::Fault { init, hist: h, deviations: ctx.pick(1, 2) });
        }
    }
    ctx.run_cases(
        &cases,
        |c| format!("{c:?}"),
        |c, rep, dir| match c {
            DCase::Sched { init, threads, bound } => {
                let mut first = None;
                let mut outcomes = std::collections::BTreeSet::new();
                let mut one = |prefix: &[usize]| -> (Exec, std::result::Result<String, String>) {
                    let base = fresh_dir(dir);
                    let st = KVDirStore::new(&base).unwrap();
                    let mut init_state = [None, None];
                    if *init {
                        do_dop(&st, DGos(0), 1).unwrap();
                        init_state[0] = Some(1);
                    }
                    let clock = Arc::new(AtomicU64::new(1));
                    let recs: Arc<Mutex<Vec<(DOp, u32, u64, u64, Out)>>> = Default::default();
                    let errs: Arc<Mutex<Vec<String>>> = Default::default();
                    let mut bodies: Vec<Body> = vec![];
                    for (t, prog) in threads.iter().enumerate() {
                        let prog = prog.clone();
                        let (clock, recs, errs) = (clock.clone(), recs.clone(), errs.clone());
                        let store = KVDirStore::new(&base).unwrap();
                        bodies.push(Box::new(move || {
                            let r = guard(|| {
                                for (i, op) in prog.iter().enumerate() {
                                    let id = (10 + t * 10 + i) as u32;
                                    let call = clock.fetch_add(1, Ordering::SeqCst);
                                    let out = do_dop(&store, *op, id).map_err(|e| format!("T{t} {op:?}: {e}"))?;
                                    let ret = clock.fetch_add(1, Ordering::SeqCst);
                                    recs.lock().unwrap().push((*op, id, call, ret, out));
                                }
                                Ok(())
                            });
                            match r {
                                Ok(Ok(())) => {}
                                Ok(Err(e)) | Err(e) => errs.lock().unwrap().push(e),
                            }
                        }));
                    }
                    let ex = run_one(base.to_str().unwrap(), bodies, prefix);
                    let recs = recs.lock().unwrap().clone();
                    let mut v = Ok(format!("{:?}", { let mut x: Vec<String> = recs.iter().map(|r| format!("{:?}{}{:?}", r.0, r.1, r.4)).collect(); x.sort(); x }));
                    if let Some(d) = &ex.deadlock {
                        v = Err(d.clone());
                    } else if let Some(e) = errs.lock().unwrap().first() {
                        v = Err(e.clone());
                    } else if ex.diverged.is_none() {
                        match (dir_state(&base, 0), dir_state(&base, 1)) {
                            (Ok(a), Ok(b)) => {
                                let fin = [a, b];
                                // brute-force linearizability
                                fn go(r: &[(DOp, u32, u64, u64, Out)], done: u32, st: [Option<u32>; 2], fin: &[Option<u32>; 2]) -> bool {
                                    if done == (1 << r.len()) - 1 { return st == *fin; }
                                    for i in 0..r.len() {
                                        if done & (1 << i) != 0 { continue; }
                                        if (0..r.len()).any(|j| j != i && done & (1 << j) == 0 && r[j].3 < r[i].2) { continue; }
                                        let mut s2 = st;
                                        if dspec(&mut s2, r[i].0, r[i].1) == r[i].4 && go(r, done | 1 << i, s2, fin) { return true; }
                                    }
                                    false
                                }
                                if !go(&recs, 0, init_state, &fin) {
                                    v = Err(format!("no sequential order explains {recs:?} final={fin:?}"));
                                }
                            }
                            (Err(e), _) | (_, Err(e)) => v = Err(e),
                        }
                    }
                    std::fs::remove_dir_all(&base).ok();
                    (ex, v)
                };
                let st = explore(*bound, 400_000, |prefix| {
                    let (ex, v) = one(prefix);
                    let mut stop = false;
                    match v {
                        Ok(o) => { outcomes.insert(o); }
                        Err(m) => {
                            first = Some((ex.choices(), format!("{m}; schedule: {}", ex.trace.join(" | "))));
                            stop = true;
                        }
                    }
                    (ex, stop)
                });
                if let Some((ch, m)) = first {
                    match one(&ch).1 {
                        Err(_) => rep.violation(format!("{c:?}"), m),
                        Ok(_) => panic!("schedule failed once and then passed: {m}"),
                    }
                }
                if let Some(d) = st.diverged { panic!("replay diverged: {d}"); }
                if st.capped { rep.notes.insert(format!("capped: {c:?}")); }
                rep.evaluations += st.executions;
                rep.traces += st.executions;
                rep.states += st.nodes;
                rep.transitions += st.transitions;
                for o in &outcomes {
                    rep.distinct.insert(super::core::h64(&format!("{c:?}{o}")));
                }
                rep.outcome(&format!("schedules: {} distinct results", outcomes.len().min(4)));
            }
            DCase::Fault { init, hist, deviations } => {
                let faults = [Fault::Errno(sys::EIO), Fault::Errno(sys::ENOSPC), Fault::Errno(sys::EINTR), Fault::ShortHalf, Fault::Die, Fault::DieTorn];
                let mut work: Vec<Vec<(usize, Fault)>> = vec![vec![]];
                while let Some(plan) = work.pop() {
                    let base = fresh_dir(dir);
                    let st = KVDirStore::new(&base).unwrap();
                    let mut state = [None, None];
                    if *init {
                        do_dop(&st, DGos(0), 1).unwrap();
                        state[0] = Some(1);
                    }
                    let env = FaultEnv::new(&base, plan.clone(), true);
                    let mut bad = None;
                    let mut errs = 0;
                    let r = with_env(&env, || guard(|| {
                        for (i, op) in hist.iter().enumerate() {
                            let id = 10 + i as u32;
                            if env.crashed() { break; }
                            let n0 = env.ops();
                            let out = match do_dop(&st, *op, id) {
                                Ok(o) => o,
                                Err(e) => { bad = Some(format!("{op:?}: {e}")); return }
                            };
                            let hit = plan.iter().any(|(k, _)| *k >= n0 && *k < env.ops());
                            let k = match op { DGos(k) | DErr(k) => *k };
                            let old = state;
                            let mut want = state;
                            let w = dspec(&mut want, *op, id);
                            let mut now = [None, None];
                            for k in 0..2 {
                                match sys::quiet(|| dir_state(&base, k)) {
                                    Ok(s) => now[k] = s,
                                    Err(e) => { bad = Some(format!("after {op:?}: key {k}: {e}")); return }
                                }
                            }
                            if !hit {
                                if out != w || now != want { bad = Some(format!("{op:?} gave {out:?}/{now:?}, expected {w:?}/{want:?}")); return; }
                            } else {
                                let other_same = now[1 - k] == old[1 - k];
                                let mine = if out.err || env.crashed() {
                                    now[k] == old[k] || (old[k].is_none() && matches!(op, DGos(_)) && now[k] == Some(id))
                                } else {
                                    out.seen.is_some() && now[k] == out.seen && (old[k].is_none() || now[k] == old[k])
                                };
                                if !mine || !other_same { bad = Some(format!("{op:?} gave {out:?} and left {now:?} (was {old:?})")); return; }
                                errs += out.err as u32;
                            }
                            state = now;
                        }
                    }));
                    if let Err(e) = r { bad = Some(e); }
                    if bad.is_none() {
                        let st2 = KVDirStore::new(&base).unwrap();
                        for k in 0..2 {
                            match (dir_state(&base, k), do_dop(&st2, DGos(k), 77)) {
                                (Err(e), _) | (_, Err(e)) => { bad = Some(e); break; }
                                (Ok(s), Ok(o)) => {
                                    if o.err { bad = Some(format!("key {k} unusable after the fault")); break; }
                                    if s.is_some() && o.seen != s { bad = Some(format!("key {k} changed from {s:?} to {:?}", o.seen)); break; }
                                }
                            }
                        }
                    }
                    rep.traces += 1;
                    rep.states += 1;
                    rep.transitions += env.ops() as u64;
                    rep.case(&format!("{c:?} {plan:?}"), !plan.is_empty());
                    rep.outcome(if env.crashed() { "process death" } else if errs > 0 { "error reported" } else { "absorbed" });
                    if plan.len() == 1 && plan[0].0 == 11 {
                        rep.sample(json!({"case": format!("{c:?}"), "fault": format!("{plan:?}"), "at": env.log.borrow().get(11).map(|x| x.1.clone())}));
                    }
                    if let Some(m) = bad {
                        rep.violation(format!("{c:?}"), format!("{c:?} with faults {plan:?}: {m}"));
                        std::fs::remove_dir_all(&base).ok();
                        return;
                    }
                    if plan.len() < *deviations && !env.crashed() {
                        let from = plan.last().map(|x| x.0 + 1).unwrap_or(0);
                        let log = env.log.borrow();
                        for k in from..env.ops() {
                            for f in faults {
                                let applies = match (f, log[k].0) {
                                    (Fault::ShortHalf | Fault::DieTorn, kind) => kind == K::Write,
                                    (Fault::Errno(sys::EINTR), kind) => matches!(kind, K::Flock | K::Write | K::Open),
                                    _ => true,
                                };
                                if applies {
                                    let mut p = plan.clone();
                                    p.push((k, f));
                                    work.push(p);
                                }
                            }
                        }
                    }
                    std::fs::remove_dir_all(&base).ok();
                }
            }
        },
    );
    finish(ctx, Level {
        level: "model_checking",
        rule: "schedules: every interleaving of the scenario's threads with at most `bound` preemptions, checked for linearizability against a write-once map; faults: every assignment of at most `deviations` faults or process deaths to the file-system operations of a history. states = scheduler decision nodes + fault plans; distinct = distinct results of scenarios and distinct fault plans",
        assumptions: &["process death, not power failure: the directory store does not sync the files it moves into place", "a rename is atomic"],
    })
}
