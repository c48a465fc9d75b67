//! Controlled scheduler: real threads running the real code, one at a time, switched only at
//! file-system operations (the synchronization points of this code base: flock(2), and the
//! directory operations it protects). Stateless DFS over all choices with a preemption bound.
use std::collections::HashMap;
use std::os::raw::c_long;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

use super::sys::{self, Answer, Env, Op, K};

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
}

#[derive(Clone, PartialEq, Debug)]
enum Th {
    Running,
    AtPoint { desc: String, want: Option<((u64, u64), bool)> },
    /// asleep in something we do not control
    External,
    Done,
}

struct St {
    th: Vec<Th>,
    linux_tid: Vec<i64>,
    granted: Option<usize>,
    /// inode -> (fd, exclusive)
    locks: HashMap<(u64, u64), Vec<(i32, bool)>>,
    abort: bool,
}

/// Switch threads at locks only (what the locks protect is seen by one thread at a time,
/// which other checks see to), and have patience with threads that wait for a child.
pub static LOCKS_ONLY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn locks_only() -> bool {
    LOCKS_ONLY.load(std::sync::atomic::Ordering::Relaxed)
}

pub struct Sched {
    m: Mutex<St>,
    cv: Condvar,
    root: String,
}

struct TEnv {
    s: Arc<Sched>,
    tid: usize,
}

fn inode(fd: i32) -> (u64, u64) {
    let mut st = [0u64; 18];
    unsafe { syscall(sys::nr::FSTAT, fd as i64, st.as_mut_ptr()) };
    (st[0], st[1])
}

impl Sched {
    fn point(&self, tid: usize, desc: String, want: Option<((u64, u64), bool)>) -> bool {
        let mut g = self.m.lock().unwrap();
        if g.abort {
            return false;
        }
        g.th[tid] = Th::AtPoint { desc, want };
        self.cv.notify_all();
        while g.granted != Some(tid) && !g.abort {
            g = self.cv.wait(g).unwrap();
        }
        if g.abort {
            g.th[tid] = Th::Running;
            return false;
        }
        g.granted = None;
        g.th[tid] = Th::Running;
        true
    }
}

impl Env for TEnv {
    fn root(&self) -> &str {
        &self.s.root
    }
    fn want_stat(&self) -> bool {
        true
    }
    fn pre(&self, op: &Op) -> Answer {
        let visible = match op.kind {
            // closing only matters when it releases a lock
            K::Close => {
                let g = self.s.m.lock().unwrap();
                g.locks.values().any(|v| v.iter().any(|(f, _)| *f == op.fd))
            }
            K::Sync | K::Chmod => false,
            _ => !locks_only(),
        };
        if visible && !self.s.point(self.tid, op.show(), None) {
            if op.kind == K::Close {
                return Answer::Go;
            }
            return Answer::Errno(sys::EIO);
        }
        match op.kind {
            K::Sync => Answer::Fake(0),
            _ => Answer::Go,
        }
    }
    fn post(&self, op: &Op, _ret: i64) {
        if op.kind == K::Close {
            let mut g = self.s.m.lock().unwrap();
            for v in g.locks.values_mut() {
                v.retain(|(f, _)| *f != op.fd);
            }
            g.locks.retain(|_, v| !v.is_empty());
        }
    }
    fn flock(&self, op: &Op, how: i32) -> Option<i64> {
        let ino = inode(op.fd);
        let excl = how & 2 != 0;
        let unlock = how & 8 != 0;
        let nb = how & 4 != 0;
        let want = if unlock || nb { None } else { Some((ino, excl)) };
        if !self.s.point(self.tid, format!("flock({}, {how})", op.p1), want) {
            sys::set_errno(sys::EIO);
            return Some(-1);
        }
        let r = unsafe { syscall(sys::nr::FLOCK, op.fd as i64, (how | 4) as i64) };
        let e = sys::errno();
        let mut g = self.s.m.lock().unwrap();
        if r == 0 {
            let v = g.locks.entry(ino).or_default();
            v.retain(|(f, _)| *f != op.fd);
            if !unlock {
                v.push((op.fd, excl));
            }
            if v.is_empty() {
                g.locks.remove(&ino);
            }
        }
        drop(g);
        sys::set_errno(e);
        Some(r)
    }
}

#[derive(Clone, Debug)]
pub struct Point {
    pub enabled: usize,
    pub running_enabled: bool,
    pub choice: usize,
}

pub struct Exec {
    pub points: Vec<Point>,
    pub trace: Vec<String>,
    pub deadlock: Option<String>,
    pub diverged: Option<String>,
}

impl Exec {
    pub fn choices(&self) -> Vec<usize> {
        self.points.iter().map(|p| p.choice).collect()
    }
    pub fn preemptions_before(&self, i: usize) -> usize {
        self.points[..i].iter().filter(|p| p.running_enabled && p.choice != 0).count()
    }
}

pub type Body = Box<dyn FnOnce() + Send>;

/// One execution under the given choice prefix (then choice 0 everywhere).
pub fn run_one(root: &str, bodies: Vec<Body>, prefix: &[usize]) -> Exec {
    let n = bodies.len();
    let s = Arc::new(Sched {
        m: Mutex::new(St {
            th: vec![Th::Running; n],
            linux_tid: vec![0; n],
            granted: None,
            locks: HashMap::new(),
            abort: false,
        }),
        cv: Condvar::new(),
        root: root.to_string(),
    });
    let mut hs = vec![];
    for (tid, b) in bodies.into_iter().enumerate() {
        let s = s.clone();
        hs.push(std::thread::spawn(move || {
            s.m.lock().unwrap().linux_tid[tid] = unsafe { syscall(186) };
            let env = TEnv { s: s.clone(), tid };
            // every thread starts at a scheduling point
            s.point(tid, "start".into(), None);
            let r = sys::with_env(&env, || super::core::guard(b));
            let _ = r; // bodies record their own panics
            let mut g = s.m.lock().unwrap();
            g.th[tid] = Th::Done;
            s.cv.notify_all();
        }));
    }
    let mut ex = Exec { points: vec![], trace: vec![], deadlock: None, diverged: None };
    let mut running: Option<usize> = None;
    let mut g = s.m.lock().unwrap();
    'outer: loop {
        // wait until nobody runs
        let mut since = Instant::now();
        let mut asleep = 0;
        loop {
            if g.granted.is_none() && !g.th.iter().any(|t| *t == Th::Running) {
                break;
            }
            let (g2, to) = s.cv.wait_timeout(g, Duration::from_millis(20)).unwrap();
            g = g2;
            if !to.timed_out() {
                since = Instant::now();
                asleep = 0;
            } else if g.granted.is_none() {
                // is every running thread asleep in the kernel, outside our control?
                let all_asleep = (0..n).filter(|i| g.th[*i] == Th::Running).all(|i| {
                    let st = std::fs::read_to_string(format!("/proc/self/task/{}/stat", g.linux_tid[i]))
                        .unwrap_or_default();
                    st.rsplit(") ").next().map(|x| x.starts_with('S')).unwrap_or(false)
                });
                asleep = if all_asleep { asleep + 1 } else { 0 };
                if asleep >= if locks_only() { 500 } else { 5 } {
                    for i in 0..n {
                        if g.th[i] == Th::Running {
                            g.th[i] = Th::External;
                        }
                    }
                    break;
                }
                if since.elapsed().as_secs() > 60 {
                    ex.deadlock = Some("a thread ran for 60 s without reaching any file operation".into());
                    break 'outer;
                }
            }
        }
        if g.th.iter().all(|t| *t == Th::Done) {
            break;
        }
        let enabled = |g: &St, i: usize| match &g.th[i] {
            Th::AtPoint { want: None, .. } => true,
            Th::AtPoint { want: Some((ino, excl)), .. } => match g.locks.get(ino) {
                None => true,
                Some(hold) => !*excl && hold.iter().all(|(_, e)| !*e),
            },
            _ => false,
        };
        let mut en: Vec<usize> = (0..n).filter(|i| enabled(&g, *i)).collect();
        if en.is_empty() {
            if g.th.iter().any(|t| *t == Th::External) {
                // give external sleepers two seconds to move
                let t0 = Instant::now();
                while t0.elapsed().as_secs() < 2 {
                    let (g2, _) = s.cv.wait_timeout(g, Duration::from_millis(20)).unwrap();
                    g = g2;
                    if (0..n).any(|i| enabled(&g, i)) || g.th.iter().all(|t| *t == Th::Done) {
                        continue 'outer;
                    }
                }
            }
            let desc: Vec<String> = g.th.iter().enumerate().map(|(i, t)| format!("T{i}:{t:?}")).collect();
            ex.deadlock = Some(format!("deadlock: {}", desc.join(" ")));
            break;
        }
        let running_enabled = running.map(|r| en.contains(&r)).unwrap_or(false);
        if let (Some(r), true) = (running, running_enabled) {
            en.retain(|x| *x != r);
            en.insert(0, r);
        }
        let i = ex.points.len();
        let choice = if i < prefix.len() { prefix[i] } else { 0 };
        if choice >= en.len() {
            ex.diverged = Some(format!("choice {choice} of {} at point {i}", en.len()));
            break;
        }
        let t = en[choice];
        if let Th::AtPoint { desc, .. } = &g.th[t] {
            ex.trace.push(format!("T{t} {desc}"));
        }
        ex.points.push(Point { enabled: en.len(), running_enabled, choice });
        running = Some(t);
        if ex.points.len() > 3000 {
            ex.deadlock = Some("livelock: more than 3000 file operations".into());
            break;
        }
        g.granted = Some(t);
        g.th[t] = Th::Running;
        s.cv.notify_all();
    }
    let failed = ex.deadlock.is_some() || ex.diverged.is_some();
    if failed {
        g.abort = true;
        s.cv.notify_all();
    }
    drop(g);
    if failed {
        // let the threads unwind; leak those that cannot
        let t0 = Instant::now();
        while t0.elapsed().as_secs() < 3 && !s.m.lock().unwrap().th.iter().all(|t| *t == Th::Done) {
            sys::real_usleep(1000);
        }
    } else {
        for h in hs {
            h.join().ok();
        }
    }
    ex
}

pub struct Stats {
    pub executions: u64,
    pub transitions: u64,
    pub nodes: u64,
    pub capped: bool,
    pub diverged: Option<String>,
}

/// Every schedule with at most `bound` preemptions. `run` builds fresh objects and executes;
/// `stop` lets the caller end early (violation found).
pub fn explore(
    bound: usize,
    cap: u64,
    mut run: impl FnMut(&[usize]) -> (Exec, bool),
) -> Stats {
    let mut st = Stats { executions: 0, transitions: 0, nodes: 0, capped: false, diverged: None };
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    while let Some(prefix) = stack.pop() {
        if st.executions >= cap {
            st.capped = true;
            break;
        }
        let (x, stop) = run(&prefix);
        st.executions += 1;
        st.transitions += x.points.len() as u64;
        st.nodes += (x.points.len() - prefix.len().min(x.points.len())) as u64;
        if let Some(d) = &x.diverged {
            st.diverged = Some(d.clone());
            break;
        }
        if stop || x.deadlock.is_some() {
            break;
        }
        let ch = x.choices();
        for i in prefix.len()..x.points.len() {
            let p = &x.points[i];
            let cost = x.preemptions_before(i) + p.running_enabled as usize;
            if cost > bound {
                continue;
            }
            for alt in 1..p.enabled {
                let mut np = ch[..i].to_vec();
                np.push(alt);
                stack.push(np);
            }
        }
    }
    st
}
