//! P06: the HTTP cache, checked over bounded request histories against RFC 9111.
use std::collections::BTreeMap;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use serde_json::json;

use super::core::{finish, guard, Ctx, Level, Rep};
use super::crash::{Fault, FaultEnv};
use super::origin::{http_date, Framing, Origin, Req, Resp};
use super::p_http::{new_http, wipe};
use super::sys::{self, with_env};
use crate::package_db::verif::*;
use crate::prelude::*;

const EPOCH: i64 = 1_700_000_000;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Val {
    None,
    Etag,
    Weak,
    Lm,
    Both,
}

/// A way for the origin to answer. Lifetimes are in seconds.
#[derive(Clone, Copy, Debug)]
struct Class {
    name: &'static str,
    status: u16,
    headers: &'static [(&'static str, &'static str)],
    val: Val,
    /// a stored answer may be used without asking for this long
    fresh: i64,
    /// ... and has to be, because the origin said so explicitly
    must: bool,
    expires: Option<i64>,
    lm_age: i64,
    redirect: bool,
    vary: bool,
    empty: bool,
    framing: Framing,
}

const BASE: Class = Class {
    name: "", status: 200, headers: &[], val: Val::None, fresh: 0, must: false, expires: None,
    lm_age: 0, redirect: false, vary: false, empty: false, framing: Framing::Length,
};

fn classes() -> Vec<Class> {
    const MA: &[(&str, &str)] = &[("Cache-Control", "max-age=100")];
    vec![
        Class { name: "plain", ..BASE },
        Class { name: "etag", val: Val::Etag, ..BASE },
        Class { name: "weak etag", val: Val::Weak, ..BASE },
        Class { name: "last-modified", val: Val::Lm, lm_age: 1000, fresh: 100, ..BASE },
        Class { name: "max-age", headers: MA, fresh: 100, must: true, ..BASE },
        Class { name: "max-age etag", headers: MA, val: Val::Etag, fresh: 100, must: true, ..BASE },
        Class { name: "max-age both", headers: MA, val: Val::Both, lm_age: 5000, fresh: 100, must: true, ..BASE },
        Class { name: "max-age chunked etag", headers: MA, val: Val::Etag, fresh: 100, must: true, framing: Framing::Chunked, ..BASE },
        Class { name: "empty max-age etag", headers: MA, val: Val::Etag, fresh: 100, must: true, empty: true, ..BASE },
        Class { name: "no-store etag", headers: &[("Cache-Control", "no-store")], val: Val::Etag, ..BASE },
        Class { name: "no-store max-age", headers: &[("Cache-Control", "no-store, max-age=100")], ..BASE },
        Class { name: "no-cache etag", headers: &[("Cache-Control", "no-cache, max-age=100")], val: Val::Etag, ..BASE },
        Class { name: "private", headers: &[("Cache-Control", "private, max-age=100")], fresh: 100, ..BASE },
        Class { name: "must-revalidate lm", headers: &[("Cache-Control", "max-age=0, must-revalidate")], val: Val::Lm, lm_age: 100_000, ..BASE },
        Class { name: "expires", expires: Some(100), fresh: 100, must: true, ..BASE },
        Class { name: "expired etag", expires: Some(-5), val: Val::Etag, ..BASE },
        Class { name: "s-maxage", headers: &[("Cache-Control", "max-age=300, s-maxage=100")], fresh: 300, ..BASE },
        Class { name: "aged", headers: &[("Cache-Control", "max-age=100"), ("Age", "50")], val: Val::Etag, fresh: 50, must: true, ..BASE },
        Class { name: "vary", headers: &[("Cache-Control", "max-age=100"), ("Vary", "X-Want")], val: Val::Etag, fresh: 100, must: true, vary: true, ..BASE },
        Class { name: "vary star", headers: &[("Cache-Control", "max-age=100"), ("Vary", "*")], ..BASE },
        Class { name: "404 max-age", status: 404, headers: MA, fresh: 100, must: true, ..BASE },
        Class { name: "410", status: 410, val: Val::Etag, ..BASE },
        Class { name: "403", status: 403, ..BASE },
        Class { name: "403 max-age", status: 403, headers: MA, fresh: 0, ..BASE },
        Class { name: "301", status: 301, redirect: true, ..BASE },
        Class { name: "302 max-age", status: 302, headers: MA, fresh: 100, must: true, redirect: true, ..BASE },
        Class { name: "308 etag", status: 308, val: Val::Etag, redirect: true, ..BASE },
        Class { name: "302 no-store", status: 302, headers: &[("Cache-Control", "no-store")], redirect: true, ..BASE },
    ]
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum FaultKind {
    Reset,
    Cut,
    S500,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Op {
    /// request resource 0/1 normally
    Get(u8),
    /// ... asking for revalidation
    Reval(u8),
    /// ... from the cache only
    Cached(u8),
    /// ... bypassing the cache
    Direct(u8),
    /// ... with another value of the header the origin varies on
    Want,
    Head,
    Tick(i64),
    Change,
    Fail(FaultKind),
    /// a new process opens the same cache
    Restart,
}

#[derive(Clone, Debug)]
struct World {
    class: Class,
    ver: [u32; 2],
    now: i64,
    fault: Option<FaultKind>,
    /// (path, answered 304, failed)
    contacts: Vec<(String, bool, bool)>,
}

fn body_of(c: &Class, path: &str, ver: u32, want: &str) -> Vec<u8> {
    if c.empty {
        return vec![];
    }
    let mut b = format!("body of {path} version {ver} for {want}\n").into_bytes();
    // long enough to span several reads, and of a different length per version
    for i in 0..(600 + ver as usize * 37) {
        b.push(b'a' + ((i * 7 + ver as usize) % 26) as u8);
    }
    b
}

fn lm_of(c: &Class, ver: u32) -> i64 {
    EPOCH - c.lm_age + ver as i64
}

fn answer(w: &mut World, req: &Req, root: &str) -> Resp {
    let fault = w.fault;
    let rel = req.path.strip_prefix(root).unwrap_or("?").to_string();
    let c = w.class;
    let (which, leaf) = match rel.as_str() {
        "/a" => (0, false),
        "/b" => (1, false),
        _ => (0, true),
    };
    // targets of redirects are plain resources that never change
    let ver = if leaf { 0 } else { w.ver[which] };
    match fault {
        Some(FaultKind::Reset) => {
            w.contacts.push((rel, false, true));
            return Resp { reset: true, ..Resp::new(200, "") };
        }
        Some(FaultKind::S500) => {
            w.contacts.push((rel, false, true));
            return Resp::new(500, "broken");
        }
        _ => {}
    }
    let mut r = if leaf {
        Resp::new(200, body_of(&BASE, &rel, 0, ""))
    } else {
        let want = if c.vary { req.header("x-want").unwrap_or("") } else { "" };
        Resp::new(c.status, body_of(&c, &rel, ver, want))
    };
    r.framing = if leaf { Framing::Length } else { c.framing };
    r = r.h("Date", http_date(w.now)).h("X-Version", format!("{rel}:{ver}"));
    let mut valid = false;
    if !leaf {
        for (k, v) in c.headers {
            r = r.h(k, *v);
        }
        if let Some(e) = c.expires {
            r = r.h("Expires", http_date(w.now + e));
        }
        let want = if c.vary { req.header("x-want").unwrap_or("") } else { "" };
        let tag = format!("\"{}{}{}\"", &rel[1..], ver, want);
        match c.val {
            Val::Etag | Val::Both => r = r.h("ETag", tag.clone()),
            Val::Weak => r = r.h("ETag", format!("W/{tag}")),
            _ => {}
        }
        let lm = http_date(lm_of(&c, ver));
        if matches!(c.val, Val::Lm | Val::Both) {
            r = r.h("Last-Modified", lm.clone());
        }
        if let Some(inm) = req.header("if-none-match") {
            valid = matches!(c.val, Val::Etag | Val::Both | Val::Weak)
                && inm.split(',').any(|t| t.trim().trim_start_matches("W/") == tag);
        } else if let Some(ims) = req.header("if-modified-since") {
            valid = matches!(c.val, Val::Lm | Val::Both) && ims == lm;
        }
        if c.redirect {
            r = r.h("Location", format!("t{}", ver));
        }
    }
    if valid {
        r.status = 304;
        r.body.clear();
        r.framing = Framing::Length;
    } else if fault == Some(FaultKind::Cut) && req.method == "GET" && !r.body.is_empty() {
        r.cut = Some(r.body.len() / 2);
    }
    let cut = r.cut.is_some();
    w.contacts.push((rel, valid, cut));
    r
}

/// What the model believes may be in the cache for one resource.
#[derive(Clone, Debug, Default)]
struct Entry {
    /// the version that may be served, and when it was stored or last validated
    may: Option<(u32, i64, String)>,
    /// it is certain to be there
    sure: bool,
}

struct Seq<'a> {
    c: Class,
    origin: &'a Origin,
    root: String,
    world: Arc<Mutex<World>>,
    /// per (method, resource)
    entries: BTreeMap<(bool, usize), Entry>,
}

fn read_resp<R: Read>(mut r: http::Response<R>) -> std::result::Result<(u16, Vec<u8>, String, String), String> {
    let mut v = vec![];
    // small reads, to notice bodies that only work when read at once
    let mut buf = [0u8; 300];
    loop {
        match r.body_mut().read(&mut buf) {
            Ok(0) => break,
            Ok(n) => v.extend(&buf[..n]),
            Err(e) => return Err(format!("reading the body: {e}")),
        }
    }
    let ver = r.headers().get("x-version").map(|v| v.to_str().unwrap_or("?").to_string()).unwrap_or_default();
    let url = r.extensions().get::<Url>().map(|u| u.to_string()).unwrap_or_default();
    Ok((r.status().as_u16(), v, ver, url))
}

impl Seq<'_> {
    fn request(&mut self, http: &Http, which: usize, head: bool, reval: bool, want: &str, mode: CacheMode) -> std::result::Result<&'static str, String> {
        let path = ["/a", "/b"][which];
        let url = self.origin.url(&format!("{}{}", self.root, path));
        let mut b = http::Request::builder().uri(&url).method(if head { "HEAD" } else { "GET" });
        if reval {
            b = b.header("Cache-Control", "max-age=0");
        }
        if !want.is_empty() {
            b = b.header("X-Want", want);
        }
        let req = b.body(()).unwrap();
        self.world.lock().unwrap().contacts.clear();
        let result = match http.request(req, mode) {
            Ok(r) => read_resp(r),
            Err(e) if e.downcast_ref::<NotCached>().is_some() => Err("NotCached".into()),
            Err(e) => Err(format!("{e:#}")),
        };
        let w = {
            let mut w = self.world.lock().unwrap();
            let r = w.clone();
            w.contacts.clear();
            r
        };
        let c = self.c;
        let contacted = w.contacts.iter().any(|x| x.0 == path);
        let validated = w.contacts.iter().any(|x| x.0 == path && x.1);
        let wantv = if c.vary { want } else { "" };
        let failed = w.contacts.iter().any(|x| x.2);
        let failed_here = w.contacts.iter().any(|x| x.0 == path && x.2);
        let cur = w.ver[which];
        let e = self.entries.entry((head, which)).or_default().clone();
        let age = e.may.as_ref().map(|m| w.now - m.1).unwrap_or(i64::MAX);
        // the `fresh` of a class already accounts for its Age header
        let age_now = age + if c.headers.iter().any(|h| h.0 == "Age") { 50 } else { 0 };
        let fresh = e.may.is_some()
            && age < c.fresh
            && e.may.as_ref().unwrap().2 == wantv
            && (!reval || age_now == 0)
            && mode != CacheMode::NoStore;
        let must = fresh && e.sure && c.must;

        if mode == CacheMode::OnlyIfCached && w.contacts.iter().any(|_| true) {
            return Err("a cache-only request used the network".into());
        }
        if mode == CacheMode::NoStore && !contacted {
            return Err("a request bypassing the cache was answered from it".into());
        }
        if must && contacted {
            return Err(format!("a fresh stored answer (age {age}) was asked for again"));
        }
        // update the model of the cache
        if contacted && mode == CacheMode::Default {
            let ent = self.entries.entry((head, which)).or_default();
            if failed_here {
                // nothing new can have been stored; what was there may be gone
                ent.sure = false;
            } else {
                *ent = Entry { may: Some((cur, w.now, wantv.to_string())), sure: true };
            }
        }
        let (status, body, xver, final_url) = match result {
            Err(m) => {
                if mode == CacheMode::OnlyIfCached {
                    // a redirect's target is its own resource
                    return if must && !c.redirect {
                        Err(format!("a fresh stored answer (age {age}) is not found by a cache-only request: {m}"))
                    } else if m == "NotCached" {
                        Ok("not cached")
                    } else {
                        Err(format!("a cache miss is reported as another error: {m}"))
                    };
                }
                return if failed { Ok("failure reported") } else { Err(format!("failed without reason: {m}")) };
            }
            Ok(x) => x,
        };
        let (ver, source) = if contacted {
            if w.fault == Some(FaultKind::S500) {
                return if status == 500 && body == b"broken" {
                    Ok("500 passed on")
                } else if head && status == 500 {
                    Ok("500 passed on")
                } else {
                    Err(format!("the origin answered 500, the caller sees {status}"))
                };
            }
            if w.fault == Some(FaultKind::Reset) {
                return Err("an answer without any from the origin".into());
            }
            if failed_here && !c.redirect {
                return Err("a truncated answer was passed on as complete".into());
            }
            (cur, if validated { "validated" } else { "origin" })
        } else {
            if !fresh {
                return Err(match e.may {
                    Some((v, _, _)) => format!("a stored answer (version {v}, age {age}, lifetime {}) was used although it may not be", c.fresh),
                    None => "an answer out of nowhere".into(),
                });
            }
            (e.may.as_ref().unwrap().0, "cache")
        };
        let (wpath, wstatus, wbody, wver) = if c.redirect {
            let t = format!("/t{ver}");
            (t.clone(), 200, body_of(&BASE, &t, 0, ""), 0)
        } else {
            (path.to_string(), c.status, body_of(&c, path, ver, wantv), ver)
        };
        if c.redirect && w.fault == Some(FaultKind::S500) && status == 500 {
            return Ok("500 passed on");
        }
        if status != wstatus {
            return Err(format!("status {status}, not {wstatus} (from {source})"));
        }
        if !head && body != wbody {
            return Err(format!("{} bytes of body, not those of version {wver} (from {source}): {:?}...", body.len(), String::from_utf8_lossy(&body[..body.len().min(40)])));
        }
        if head && !body.is_empty() {
            return Err(format!("a HEAD request got a body of {} bytes", body.len()));
        }
        if xver != format!("{wpath}:{wver}") {
            return Err(format!("headers of {xver:?} with the body of {wpath}:{wver} (from {source})"));
        }
        let wurl = self.origin.url(&format!("{}{}", self.root, wpath));
        if final_url != wurl {
            return Err(format!("the answer claims to come from {final_url}, not {wurl}"));
        }
        Ok(source)
    }
}

fn is_request(o: &Op) -> bool {
    matches!(o, Op::Get(_) | Op::Reval(_) | Op::Cached(_) | Op::Direct(_) | Op::Want | Op::Head)
}

fn alphabet(c: &Class, full: bool) -> Vec<Op> {
    let mut v = vec![
        Op::Get(0), Op::Reval(0), Op::Cached(0), Op::Direct(0), Op::Tick(60), Op::Tick(200), Op::Change,
        Op::Fail(FaultKind::Reset), Op::Fail(FaultKind::Cut), Op::Fail(FaultKind::S500), Op::Restart,
    ];
    if c.vary {
        v.push(Op::Want);
    }
    if full || c.name == "max-age etag" || c.name == "etag" {
        v.push(Op::Get(1));
        v.push(Op::Head);
    }
    v
}

#[derive(Clone, Debug)]
enum Case {
    Hist { class: usize, first: usize, second: usize },
    Chain(Vec<Hop>),
    Faults { class: usize, prior: usize },
    Race { class: usize, bound: usize, prior: bool },
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Hop {
    status: u16,
    /// how the Location is written: 0 absolute, 1 absolute path, 2 relative, 3 //host, 4 with fragment, 5 missing, 6 back to the start
    loc: u8,
}

pub fn p06(mut ctx: Ctx) -> i32 {
    let cl = classes();
    let depth = ctx.pick(4usize, 5);
    let full = ctx.thorough();
    let mut cases = vec![];
    for (k, c) in cl.iter().enumerate() {
        let n = alphabet(c, full).len();
        for a in 0..n {
            for b in 0..n {
                cases.push(Case::Hist { class: k, first: a, second: b });
            }
        }
        let few = ["max-age etag", "etag", "plain", "no-store etag", "empty max-age etag", "max-age chunked etag", "301", "404 max-age"];
        for prior in 0..3 {
            if !full && !few.contains(&c.name) {
                continue;
            }
            cases.push(Case::Faults { class: k, prior });
        }
    }
    // redirect chains
    let locs: &[u8] = &[0, 1, 2, 3, 4];
    let sts: &[u16] = &[301, 302, 303, 307, 308];
    let mut hops = vec![];
    for s in sts {
        for l in locs {
            hops.push(Hop { status: *s, loc: *l });
        }
    }
    for h in &hops {
        cases.push(Case::Chain(vec![*h]));
        for g in &hops {
            cases.push(Case::Chain(vec![*h, *g]));
        }
    }
    for n in 3..=5 {
        for l in locs {
            cases.push(Case::Chain(vec![Hop { status: 302, loc: *l }; n]));
        }
    }
    for s in sts {
        for n in 0..3 {
            for l in [5u8, 6] {
                let mut v = vec![Hop { status: 302, loc: 1 }; n];
                v.push(Hop { status: *s, loc: l });
                cases.push(Case::Chain(v));
            }
        }
    }
    let bound = ctx.pick(1, 2);
    for name in ["etag", "max-age etag", "no-store etag", "plain", "max-age"] {
        let class = cl.iter().position(|c| c.name == name).unwrap();
        for prior in [false, true] {
            cases.push(Case::Race { class, bound, prior });
        }
    }
    ctx.run_cases(&cases, |c| format!("{c:?}"), |case, rep, dir| {
        sys::NO_SLEEP.store(1, Ordering::Relaxed);
        thread_local!(static W: std::cell::RefCell<Option<(Origin, PathBuf)>> = const { std::cell::RefCell::new(None) });
        W.with(|wc| {
            let mut wc = wc.borrow_mut();
            if wc.is_none() {
                *wc = Some((Origin::start(), dir.join("cache")));
            }
            let (origin, base) = wc.as_ref().unwrap();
            let base: &Path = base;
            wipe(base);
            let cl = classes();
            match case {
                Case::Hist { class, first, second } => histories(&cl[*class], *first, *second, depth, full, origin, base, rep, &format!("{case:?}")),
                Case::Chain(hops) => chain(hops, origin, base, rep, &format!("{case:?}")),
                Case::Faults { class, prior } => faults(&cl[*class], *prior, origin, base, rep, &format!("{case:?}")),
                Case::Race { class, bound, prior } => race(&cl[*class], *bound, *prior, origin, base, rep, &format!("{case:?}")),
            }
        });
    });
    finish(ctx, Level {
        level: "model_checking",
        rule: "every history up to the depth of requests (normal, revalidating, cache-only, cache-bypassing, other header values, other resource, HEAD), passing time, content changes, origin failures and process restarts, for every kind of cache header, against a model of RFC 9111 storage and freshness with a virtual clock; every redirect chain of a bounded alphabet; every file fault or process death while an answer is stored; every interleaving (preemption bound) of two requests; states = distinct (cache model, world) states seen; distinct = distinct (class, history, results)",
        assumptions: &["the origin follows RFC 9110 (validators change with the content, 304 carries the validators)"],
    })
}

fn world(c: &Class) -> World {
    World { class: *c, ver: [0, 0], now: EPOCH, fault: None, contacts: vec![] }
}

fn set_origin(origin: &Origin, w: &Arc<Mutex<World>>, root: &str) {
    let (w, root) = (w.clone(), root.to_string());
    origin.set(move |r| answer(&mut w.lock().unwrap(), r, &root));
}

static COUNTER: AtomicU64 = AtomicU64::new(0);

fn histories(c: &Class, first: usize, second: usize, depth: usize, full: bool, origin: &Origin, base: &Path, rep: &mut Rep, key: &str) {
    let al = alphabet(c, full);
    let mut seqs: Vec<Vec<Op>> = vec![vec![al[first], al[second]]];
    for _ in 2..depth - 1 {
        seqs = seqs.iter().flat_map(|s| al.iter().map(move |o| { let mut t = s.clone(); t.push(*o); t })).collect();
    }
    seqs = seqs.iter().flat_map(|s| al.iter().filter(|o| is_request(o)).map(move |o| { let mut t = s.clone(); t.push(*o); t })).collect();
    let mut states = std::collections::BTreeSet::new();
    let mut http = new_http(base);
    for (i, seq) in seqs.iter().enumerate() {
        if i % 400 == 399 {
            wipe(base);
            http = new_http(base);
        }
        let root = format!("/{}", COUNTER.fetch_add(1, Ordering::Relaxed));
        let w = Arc::new(Mutex::new(world(c)));
        set_origin(origin, &w, &root);
        sys::CLOCK_FIXED.store(EPOCH, Ordering::Relaxed);
        let mut s = Seq { c: *c, origin, root, world: w.clone(), entries: Default::default() };
        let mut sig = String::new();
        for (k, o) in seq.iter().enumerate() {
            let r = guard(|| match o {
                Op::Get(x) => s.request(&http, *x as usize, false, false, "", CacheMode::Default),
                Op::Reval(x) => s.request(&http, *x as usize, false, true, "", CacheMode::Default),
                Op::Cached(x) => s.request(&http, *x as usize, false, false, "", CacheMode::OnlyIfCached),
                Op::Direct(x) => s.request(&http, *x as usize, false, false, "", CacheMode::NoStore),
                Op::Want => s.request(&http, 0, false, false, "z", CacheMode::Default),
                Op::Head => s.request(&http, 0, true, false, "", CacheMode::Default),
                Op::Tick(n) => {
                    let mut w = w.lock().unwrap();
                    w.now += n;
                    sys::CLOCK_FIXED.store(w.now, Ordering::Relaxed);
                    Ok("")
                }
                Op::Change => {
                    let mut w = w.lock().unwrap();
                    w.ver[0] += 1;
                    w.ver[1] += 1;
                    Ok("")
                }
                Op::Fail(f) => {
                    w.lock().unwrap().fault = Some(*f);
                    Ok("")
                }
                Op::Restart => {
                    http = new_http(base);
                    Ok("")
                }
            })
            .and_then(|x| x);
            // a failure lasts until the next request is over
            if is_request(o) {
                w.lock().unwrap().fault = None;
            }
            rep.transitions += 1;
            match r {
                Ok(x) => {
                    if !x.is_empty() {
                        rep.outcome(x);
                        sig.push_str(x);
                        sig.push(';');
                    }
                    let ww = w.lock().unwrap();
                    states.insert(format!("{:?} {} {:?} {:?}", ww.ver, ww.now, ww.fault, s.entries));
                }
                Err(m) => {
                    sys::CLOCK_FIXED.store(0, Ordering::Relaxed);
                    rep.violation(key, format!("{}: history {seq:?}, step {k} {o:?}: {m}", c.name));
                    return;
                }
            }
        }
        rep.traces += 1;
        rep.case(&format!("{} {seq:?} {sig}", c.name), sig.contains("cache") || sig.contains("validated"));
        if sig.contains("cache") && sig.contains("validated") {
            rep.sample(json!({"class": c.name, "history": format!("{seq:?}"), "results": sig}));
        }
    }
    sys::CLOCK_FIXED.store(0, Ordering::Relaxed);
    rep.states += states.len() as u64;
}

fn chain(hops: &[Hop], origin: &Origin, base: &Path, rep: &mut Rep, key: &str) {
    let http = new_http(base);
    let n = hops.len();
    let port = origin.port;
    let hv = hops.to_vec();
    let count = Arc::new(AtomicU64::new(0));
    let c2 = count.clone();
    // resource i is /d/0/1/../i/x, so that relative targets mean something else at every hop; the
    // last one answers 200
    fn place(i: usize) -> String {
        let dirs: String = (0..=i).map(|k| format!("/{k}")).collect();
        format!("/d{dirs}/x")
    }
    origin.set(move |r| {
        c2.fetch_add(1, Ordering::SeqCst);
        let i = (0..99).find(|i| place(*i) == r.path).unwrap_or(99);
        if i == 99 {
            return Resp::new(404, "wrong path");
        }
        if i >= hv.len() {
            return Resp::new(200, "arrived");
        }
        let h = hv[i];
        let t = place(i + 1);
        let resp = Resp::new(h.status, format!("hop {i}"));
        match h.loc {
            0 => resp.h("Location", format!("http://127.0.0.1:{port}{t}")),
            1 => resp.h("Location", t),
            2 => resp.h("Location", format!("{}/x", i + 1)),
            3 => resp.h("Location", format!("//127.0.0.1:{port}{t}")),
            4 => resp.h("Location", format!("{t}#part")),
            5 => resp,
            _ => resp.h("Location", "/d/0/x"),
        }
    });
    for (method, mode) in [("GET", CacheMode::Default), ("GET", CacheMode::NoStore), ("HEAD", CacheMode::NoStore), ("GET", CacheMode::Default)] {
        count.store(0, Ordering::SeqCst);
        let req = http::Request::builder().uri(origin.url("/d/0/x")).method(method).body(()).unwrap();
        let r = guard(|| http.request(req, mode).map_err(|e| format!("{e:#}")).and_then(|r| read_resp(r)));
        rep.transitions += 1;
        rep.traces += 1;
        let k = count.load(Ordering::SeqCst);
        rep.case(&format!("{hops:?} {method} {mode:?}"), true);
        let last = hops[n - 1];
        let verdict = match r {
            Err(p) => Err(p),
            Ok(r) => match (last.loc, r) {
                (6, Ok(_)) => Err("a redirect loop ended in an answer".into()),
                (6, Err(_)) if k <= 25 => Ok("loop refused"),
                (6, Err(_)) => Err(format!("{k} requests in a redirect loop")),
                // a redirect to nowhere is an error or handed on as it is
                (5, Err(_)) => Ok("dead end refused"),
                (5, Ok((s, _, _, u))) if s == last.status && u == origin.url(&place(n - 1)) => Ok("dead end handed on"),
                (5, Ok((s, _, _, u))) => Err(format!("dead end gives status {s} from {u}")),
                (_, Ok((s, b, _, u))) => {
                    let u0 = u.split('#').next().unwrap();
                    if s == 200 && (b == b"arrived" || method == "HEAD") && u0 == origin.url(&place(n)) {
                        Ok("arrived")
                    } else {
                        Err(format!("status {s}, body {:?}, from {u}", String::from_utf8_lossy(&b)))
                    }
                }
                (_, Err(_)) if n > 3 => Ok("long chain refused"),
                (_, Err(e)) => Err(e),
            },
        };
        match verdict {
            Ok(o) => rep.outcome(o),
            Err(m) => {
                rep.violation(key, format!("redirects {hops:?}, {method} {mode:?}: {m}"));
                return;
            }
        }
    }
    rep.states += n as u64;
}

/// Every file operation of a request as a fault or death; afterwards the cache must work.
fn faults(c: &Class, prior: usize, origin: &Origin, base: &Path, rep: &mut Rep, key: &str) {
    let mut n = 0;
    loop {
        let mut ended = false;
        for f in [Fault::Errno(sys::EIO), Fault::Errno(sys::ENOSPC), Fault::ShortHalf, Fault::Die, Fault::DieTorn] {
            wipe(base);
            let w = Arc::new(Mutex::new(world(c)));
            set_origin(origin, &w, "/f");
            sys::CLOCK_FIXED.store(EPOCH, Ordering::Relaxed);
            let mut s = Seq { c: *c, origin, root: "/f".into(), world: w.clone(), entries: Default::default() };
            let http = new_http(base);
            // what is there before: nothing; a stored answer; a stored answer that is outdated
            if prior > 0 {
                if let Err(m) = guard(|| s.request(&http, 0, false, false, "", CacheMode::Default)).and_then(|x| x) {
                    rep.violation(key, format!("{}: {m}", c.name));
                    return;
                }
                let mut ww = w.lock().unwrap();
                ww.now += 200;
                sys::CLOCK_FIXED.store(ww.now, Ordering::Relaxed);
                if prior == 2 {
                    ww.ver[0] += 1;
                }
            }
            let url = origin.url("/f/a");
            let env = FaultEnv::new(base, vec![(n, f)], true);
            let r = with_env(&env, || guard(|| {
                http.request(http::Request::builder().uri(&url).body(()).unwrap(), CacheMode::Default)
                    .map_err(|e| e.to_string())
                    .and_then(|r| read_resp(r))
            }));
            sys::clear_env();
            ended |= env.ops() <= n;
            rep.traces += 1;
            rep.transitions += env.ops() as u64;
            rep.case(&format!("{} {prior} {n} {f:?}", c.name), env.ops() > n);
            let ver = w.lock().unwrap().ver[0];
            let good = if c.redirect { body_of(&BASE, &format!("/t{ver}"), 0, "") } else { body_of(c, "/a", ver, "") };
            let mut bad = match &r {
                Err(p) => Some(p.clone()),
                Ok(Ok((_, b, _, _))) if *b != good && !env.crashed() => Some(format!("{} wrong bytes handed out", b.len())),
                _ => None,
            };
            rep.outcome(match &r {
                Ok(Ok(_)) => "answered despite the fault",
                _ => "fault reported",
            });
            if bad.is_none() {
                // a later process: cache-only finds a complete answer or nothing; a plain request works
                let h2 = new_http(base);
                let now = w.lock().unwrap().now;
                let e = s.entries.entry((false, 0)).or_default();
                e.sure = false;
                for (mode, tick) in [(CacheMode::OnlyIfCached, 0), (CacheMode::Default, 0), (CacheMode::Default, 200)] {
                    // either the answer of this request was stored, or it was not
                    let e = s.entries.entry((false, 0)).or_default();
                    if !e.sure && mode == CacheMode::OnlyIfCached {
                        *e = Entry { may: Some((ver, now, String::new())), sure: false };
                    }
                    {
                        let mut ww = w.lock().unwrap();
                        ww.now += tick;
                        sys::CLOCK_FIXED.store(ww.now, Ordering::Relaxed);
                    }
                    if let Err(m) = guard(|| s.request(&h2, 0, false, false, "", mode)).and_then(|x| x) {
                        bad = Some(format!("later {mode:?} request: {m}"));
                        break;
                    }
                }
            }
            if let Some(m) = bad {
                sys::CLOCK_FIXED.store(0, Ordering::Relaxed);
                rep.violation(key, format!("{}, prior state {prior}, fault {f:?} at file operation {n}: {m}", c.name));
                return;
            }
        }
        if ended {
            break;
        }
        n += 1;
    }
    rep.states += n as u64;
    sys::CLOCK_FIXED.store(0, Ordering::Relaxed);
}

/// Two concurrent processes' worth of requests for one URL; content changes between contacts.
fn race(c: &Class, bound: usize, prior: bool, origin: &Origin, base: &Path, rep: &mut Rep, key: &str) {
    let mut first: Option<(Vec<usize>, String)> = None;
    let mut one = |prefix: &[usize]| {
        wipe(base);
        sys::CLOCK_FIXED.store(EPOCH, Ordering::Relaxed);
        let w = Arc::new(Mutex::new(world(c)));
        let ww = w.clone();
        // every contact sees new content
        origin.set(move |r| {
            let mut g = ww.lock().unwrap();
            let a = answer(&mut g, r, "/r");
            g.ver[0] += 1;
            a
        });
        let url = origin.url("/r/a");
        if prior {
            let h = new_http(base);
            let r = h.request(http::Request::builder().uri(&url).body(()).unwrap(), CacheMode::Default).unwrap();
            read_resp(r).unwrap();
            let mut g = w.lock().unwrap();
            g.now += 200;
            sys::CLOCK_FIXED.store(g.now, Ordering::Relaxed);
            // half of the content is what is stored
            g.ver[0] = 0;
        }
        let errs: Arc<Mutex<Vec<String>>> = Default::default();
        let mut bodies: Vec<Box<dyn FnOnce() + Send + 'static>> = vec![];
        for _ in 0..2 {
            let (errs, url, b, cc) = (errs.clone(), url.clone(), base.to_path_buf(), *c);
            bodies.push(Box::new(move || {
                let r = guard(|| -> std::result::Result<(), String> {
                    let h = sys::quiet(|| new_http(&b));
                    for _ in 0..2 {
                        let r = h
                            .request(http::Request::builder().uri(&url).body(()).unwrap(), CacheMode::Default)
                            .map_err(|e| format!("{e:#}"))?;
                        let (_, body, xver, _) = read_resp(r)?;
                        let v: u32 = xver.strip_prefix("/a:").and_then(|x| x.parse().ok()).ok_or("no version")?;
                        if body != body_of(&cc, "/a", v, "") {
                            return Err(format!("headers of version {v} with another body of {} bytes", body.len()));
                        }
                    }
                    Ok(())
                })
                .and_then(|x| x);
                if let Err(e) = r {
                    errs.lock().unwrap().push(e);
                }
            }));
        }
        let ex = super::sched::run_one(base.to_str().unwrap(), bodies, prefix);
        let e = ex.deadlock.clone().or(errs.lock().unwrap().first().cloned());
        (ex, e)
    };
    let st = super::sched::explore(bound, 50_000, |p| {
        let (ex, e) = one(p);
        let stop = e.is_some();
        if let Some(m) = e {
            first = Some((ex.choices(), format!("{m}; schedule {}", ex.trace.join(" | "))));
        }
        (ex, stop)
    });
    if let Some((ch, m)) = first {
        match one(&ch).1 {
            Some(_) => rep.violation(key, format!("{}: {m}", c.name)),
            None => panic!("schedule failed once and then passed: {m}"),
        }
    }
    sys::CLOCK_FIXED.store(0, Ordering::Relaxed);
    if let Some(d) = st.diverged {
        panic!("replay diverged: {d}");
    }
    rep.evaluations += st.executions;
    rep.traces += st.executions;
    rep.states += st.nodes;
    rep.transitions += st.transitions;
    rep.outcome("race explored");
    rep.distinct.insert(super::core::h64(key));
}
