//! P05..P08: downloads, HTTP cache, random-access remote files, stream windows.
use std::collections::{BTreeMap, HashMap};
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use serde_json::json;

use super::core::{finish, guard, Ctx, Level, Rep};
use super::crash::{Fault, FaultEnv};
use super::origin::{http_date, parse_range, range_resp, Framing, Origin, Req, Resp};
use super::sys::{self, with_env};
use crate::kvstore::KVFileStore;
use crate::package_db::verif::*;
use crate::prelude::*;
use crate::seek_slice::SeekSlice;

pub fn sha256(data: &[u8]) -> ArtifactHash {
    ArtifactHash {
        mode: "sha256".into(),
        raw_data: ring::digest::digest(&ring::digest::SHA256, data).as_ref().to_vec(),
    }
}

pub fn new_http(base: &Path) -> Http {
    Http::new(
        KVFileStore::new(&base.join("http")).unwrap(),
        KVFileStore::new(&base.join("by-hash")).unwrap(),
    )
}

pub fn wipe(base: &Path) {
    for sub in ["http", "by-hash"] {
        std::fs::remove_dir_all(base.join(sub)).ok();
        KVFileStore::new(&base.join(sub)).unwrap();
    }
}

// ---- P08 ----------------------------------------------------------------------------------

/// A stream that hands out at most `chunk` bytes per read.
struct Chunky {
    c: Cursor<Vec<u8>>,
    chunk: usize,
}
impl Read for Chunky {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.chunk);
        self.c.read(&mut buf[..n])
    }
}
impl Seek for Chunky {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.c.seek(p)
    }
}

#[derive(Clone, Copy, Debug)]
enum SOp {
    S(u64),
    E(i64),
    C(i64),
    R(usize),
    ToEnd,
}

/// Apply one operation to the real stream and to the model; Err on disagreement.
fn step<T: Read + Seek>(
    f: &mut T,
    data: &[u8],
    pos: &mut u64,
    op: SOp,
    past_end_ok: bool,
) -> std::result::Result<String, String> {
    let len = data.len() as u64;
    let target = |p: u64| -> Option<u64> {
        match op {
            SOp::S(x) => Some(x),
            SOp::E(d) => (len as i128 + d as i128).try_into().ok(),
            SOp::C(d) => (p as i128 + d as i128).try_into().ok(),
            _ => None,
        }
    };
    match op {
        SOp::S(x) => seek_check(f.seek(SeekFrom::Start(x)), target(*pos), pos, len, past_end_ok, op),
        SOp::E(x) => seek_check(f.seek(SeekFrom::End(x)), target(*pos), pos, len, past_end_ok, op),
        SOp::C(x) => seek_check(f.seek(SeekFrom::Current(x)), target(*pos), pos, len, past_end_ok, op),
        SOp::R(n) => {
            let mut buf = vec![0xEEu8; n];
            let k = match f.read(&mut buf) {
                Ok(k) => k,
                // the operating system itself refuses offsets near the limit of off_t
                Err(_) if *pos > i64::MAX as u64 / 2 => return Ok("far".into()),
                Err(e) => return Err(format!("{op:?} at {pos}: {e}")),
            };
            let avail = len.saturating_sub(*pos) as usize;
            if k > n || k > avail || (k == 0 && n > 0 && avail > 0) {
                return Err(format!("{op:?} at {pos} of {len} returned {k} bytes"));
            }
            let p = *pos as usize;
            if k > 0 && buf[..k] != data[p..p + k] {
                return Err(format!("{op:?} at {pos} returned wrong bytes"));
            }
            *pos += k as u64;
            Ok(format!("r{}", (k > 0) as u8))
        }
        SOp::ToEnd => {
            let mut v = vec![];
            f.read_to_end(&mut v).map_err(|e| format!("{op:?} at {pos}: {e}"))?;
            let p = (*pos).min(len) as usize;
            if v != data[p..] {
                return Err(format!("{op:?} at {pos} of {len}: got {} bytes, not the {} expected", v.len(), data.len() - p));
            }
            *pos = (*pos).max(len);
            Ok("end".into())
        }
    }
}

fn seek_check(
    r: std::io::Result<u64>,
    target: Option<u64>,
    pos: &mut u64,
    len: u64,
    past_end_ok: bool,
    op: SOp,
) -> std::result::Result<String, String> {
    match (target, r) {
        (None, Err(_)) => Ok("refused".into()),
        (None, Ok(p)) => Err(format!("{op:?} at {pos} of {len} should be refused, gave {p}")),
        (Some(t), Ok(p)) if p == t => {
            *pos = p;
            Ok(if t > len { "past".into() } else { "ok".into() })
        }
        (Some(t), Ok(p)) => Err(format!("{op:?} at {pos} of {len} gave position {p}, expected {t}")),
        (Some(t), Err(_)) if t > len && !past_end_ok => Ok("past-refused".into()),
        // far beyond anything addressable
        (Some(t), Err(_)) if t > i64::MAX as u64 => Ok("overflow".into()),
        (Some(t), Err(e)) => Err(format!("{op:?} at {pos} of {len}: seek to {t} failed: {e}")),
    }
}

pub fn p08(mut ctx: Ctx) -> i32 {
    let total = ctx.pick(5usize, 6);
    let depth = ctx.pick(4usize, 5);
    let mut cases = vec![];
    for start in 0..=total {
        for end in start..=total {
            for chunk in [1usize, 99] {
                cases.push((total, start, end, chunk));
            }
        }
    }
    ctx.run_cases(&cases, |c| format!("{c:?}"), |&(total, start, end, chunk), rep, _| {
        let stream: Vec<u8> = (0..total).map(|i| 10 + i as u8).collect();
        let data = &stream[start..end];
        let n = data.len() as i64;
        let mut ops = vec![];
        for x in 0..=(n as u64 + 1) {
            ops.push(SOp::S(x));
        }
        ops.push(SOp::S(u64::MAX));
        for x in -n - 1..=1 {
            ops.push(SOp::E(x));
        }
        ops.push(SOp::E(i64::MIN));
        ops.push(SOp::E(i64::MAX));
        for x in [-n - 1, -n, -1, 0, 1, n, n + 1, i64::MIN, i64::MAX] {
            ops.push(SOp::C(x));
        }
        for x in [0usize, 1, 2, total + 2] {
            ops.push(SOp::R(x));
        }
        ops.push(SOp::ToEnd);
        let mut idx = vec![0usize; depth];
        let mut states = std::collections::BTreeSet::new();
        loop {
            let mut s = match SeekSlice::new(Chunky { c: Cursor::new(stream.clone()), chunk }, start as u64, end as u64) {
                Ok(s) => s,
                Err(e) => {
                    rep.violation(format!("{:?}", (total, start, end, chunk)), format!("window {start}..{end} of {total}: cannot be made: {e}"));
                    return;
                }
            };
            let mut pos = 0u64;
            let mut sig = String::new();
            for &i in &idx {
                match guard(|| step(&mut s, data, &mut pos, ops[i], false)).and_then(|x| x) {
                    Ok(o) => {
                        sig.push_str(&o);
                        rep.transitions += 1;
                        states.insert((pos, o));
                    }
                    Err(m) => {
                        let seq: Vec<_> = idx.iter().map(|i| ops[*i]).collect();
                        rep.violation(format!("{:?}", (total, start, end, chunk)), format!("window {start}..{end} of {total}, chunk {chunk}, ops {seq:?}: {m}"));
                        return;
                    }
                }
            }
            rep.traces += 1;
            rep.case(&format!("{start} {end} {chunk} {sig}"), true);
            let mut j = 0;
            while j < depth {
                idx[j] += 1;
                if idx[j] < ops.len() {
                    break;
                }
                idx[j] = 0;
                j += 1;
            }
            if j == depth {
                break;
            }
        }
        rep.states += states.len() as u64;
        rep.outcome(if data.is_empty() { "empty window" } else { "window" });
        rep.sample(json!({"window": [start, end], "of": total, "reads_of_at_most": chunk, "operations": ops.len(), "depth": depth}));
    });
    finish(ctx, Level {
        level: "model_checking",
        rule: "every sequence of `depth` operations (seek from start/end/current at boundary offsets and numeric extremes, reads of several sizes, read to end) on every window of a small stream, over an inner stream with full and 1-byte reads, compared step by step with a byte vector; states = distinct (position, result) pairs per window, summed; distinct = distinct result sequences",
        assumptions: &["seeking past the end of a window may be refused or accepted"],
    })
}

// ---- P07 ----------------------------------------------------------------------------------

pub fn file_bytes(len: usize) -> Vec<u8> {
    // position-dependent, so misplaced bytes show
    (0..len).map(|i| ((i * 31 + i / 251 * 7 + i / 10007) % 251) as u8).collect()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Srv {
    Full,
    NoRange,
    HeadIgnoresRange,
    Redirecting,
    Chunked,
    /// conforming, but sends only part of what was asked
    Short(u64),
    /// sends more than was asked: whole blocks
    Blocks(u64),
    /// answers a range that covers the whole file with the whole file (a 200)
    WholeIs200,
    /// ignores Range headers of GET requests, but not of HEAD requests
    GetIgnoresRange,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Bad {
    NoContentRange,
    BadContentRange,
    Elsewhere,
    Empty206,
    R416,
    R404,
    R500,
    Reset,
    Cut,
    Full200,
    Huge,
    SmallerTotal,
    /// this request is answered with all of another file of another size
    OtherFull200,
    /// from here on, another file of another size is there
    Replaced,
}
const BADS: [Bad; 14] = [
    Bad::NoContentRange, Bad::BadContentRange, Bad::Elsewhere, Bad::Empty206, Bad::R416, Bad::R404,
    Bad::R500, Bad::Reset, Bad::Cut, Bad::Full200, Bad::Huge, Bad::SmallerTotal, Bad::Replaced, Bad::OtherFull200,
];

fn srv_resp(srv: Srv, req: &Req, body: &[u8]) -> Resp {
    let len = body.len() as u64;
    let piece = |a: u64, b: u64| {
        Resp::new(206, &body[a as usize..=b as usize]).h("Content-Range", format!("bytes {a}-{b}/{len}"))
    };
    match srv {
        Srv::Full => range_resp(req, body),
        Srv::Chunked => range_resp(req, body).framing(Framing::Chunked),
        Srv::NoRange => Resp::new(200, body),
        Srv::HeadIgnoresRange => {
            if req.method == "HEAD" {
                Resp::new(200, body)
            } else {
                range_resp(req, body)
            }
        }
        Srv::WholeIs200 => match parse_range(req) {
            Some((0, b)) if b + 1 >= len && req.method == "GET" => Resp::new(200, body),
            _ => range_resp(req, body),
        },
        Srv::GetIgnoresRange => {
            if req.method == "GET" {
                Resp::new(200, body)
            } else {
                range_resp(req, body)
            }
        }
        Srv::Redirecting => {
            if req.path.starts_with("/moved") {
                range_resp(req, body)
            } else {
                Resp::new(302, "gone").h("Location", format!("/moved{}", req.path))
            }
        }
        Srv::Short(k) => match parse_range(req) {
            Some((a, b)) if a < len => piece(a, b.min(len - 1).min(a + k - 1)),
            _ => range_resp(req, body),
        },
        Srv::Blocks(k) => match parse_range(req) {
            Some((a, b)) if a < len => piece(a / k * k, ((b / k + 1) * k - 1).min(len - 1)),
            _ => range_resp(req, body),
        },
    }
}

fn bad_resp(b: Bad, req: &Req, body: &[u8]) -> Resp {
    let len = body.len() as u64;
    let (a, e) = parse_range(req).unwrap_or((0, 0));
    let good = range_resp(req, body);
    match b {
        Bad::NoContentRange => Resp { headers: vec![], ..good },
        Bad::BadContentRange => Resp { headers: vec![("Content-Range".into(), "bytes x-y/z".into())], ..good },
        Bad::Elsewhere => {
            // an honest answer, but for another place
            let at = if a > len / 2 { 0 } else { len.saturating_sub(3) };
            let to = (at + 2).min(len.saturating_sub(1));
            if len == 0 {
                return good;
            }
            Resp::new(206, &body[at as usize..=to as usize]).h("Content-Range", format!("bytes {at}-{to}/{len}"))
        }
        Bad::Empty206 => Resp::new(206, "").h("Content-Range", format!("bytes {a}-{e}/{len}")),
        Bad::R416 => Resp::new(416, "").h("Content-Range", format!("bytes */{len}")),
        Bad::R404 => Resp::new(404, "nope"),
        Bad::R500 => Resp::new(500, "oops"),
        Bad::Reset => Resp { reset: true, ..good },
        Bad::Cut => {
            let n = good.body.len() / 2;
            Resp { cut: Some(n), ..good }
        }
        Bad::Full200 => Resp::new(200, body),
        Bad::OtherFull200 => Resp::new(200, body.iter().map(|b| b ^ 0x55).chain([1]).collect::<Vec<u8>>()),
        Bad::Replaced => range_resp(req, &body.iter().map(|b| b ^ 0x55).chain([1]).collect::<Vec<u8>>()),
        Bad::Huge => Resp { headers: vec![("Content-Range".into(), "bytes 99999999999999999999-999999999999999999999/9999999999999999999999".into())], ..good },
        Bad::SmallerTotal => Resp { headers: vec![("Content-Range".into(), format!("bytes {a}-{e}/0"))], ..good },
    }
}

pub fn wheel_ai(url: &str, hash: Option<ArtifactHash>) -> ArtifactInfo {
    ArtifactInfo {
        name: "foo-1.0-py3-none-any.whl".try_into().unwrap(),
        url: Url::parse(url).unwrap(),
        hash,
        requires_python: None,
        dist_info_metadata: DistInfoMetadata { available: false, hash: None },
        yanked: Yanked { yanked: false, reason: None },
    }
}

#[derive(Clone, Debug)]
struct LCase {
    len: usize,
    srv: Srv,
    hashed: bool,
    first: usize,
    bad: Option<Bad>,
}

pub fn p07(mut ctx: Ctx) -> i32 {
    let sizes: Vec<usize> = ctx.pick(
        vec![0, 1, 2, 9_999, 10_001, 20_003, 30_000],
        vec![0, 1, 2, 3, 9_999, 10_000, 10_001, 19_999, 20_003, 30_000, 30_001, 50_000],
    );
    let srvs = [Srv::Full, Srv::NoRange, Srv::HeadIgnoresRange, Srv::Redirecting, Srv::Chunked, Srv::Short(700), Srv::Short(9_000), Srv::Blocks(4096), Srv::WholeIs200, Srv::GetIgnoresRange];
    let n_first = lazy_ops(0).len();
    let mut cases = vec![];
    for &len in &sizes {
        for srv in srvs {
            for hashed in [false, true] {
                if hashed && !matches!(srv, Srv::NoRange | Srv::Full | Srv::HeadIgnoresRange) {
                    continue;
                }
                for first in 0..n_first {
                    cases.push(LCase { len, srv, hashed, first, bad: None });
                }
            }
        }
        for bad in BADS {
            for first in 0..n_first {
                cases.push(LCase { len, srv: Srv::Full, hashed: false, first, bad: Some(bad) });
            }
        }
    }
    let depth = ctx.pick(2usize, 3);
    let small = ctx.pick(false, true);
    ctx.run_cases(&cases, |c| format!("{c:?}"), |c, rep, dir| {
        sys::NO_SLEEP.store(1, Ordering::Relaxed);
        thread_local!(static W: std::cell::RefCell<Option<(Origin, Http, PathBuf)>> = const { std::cell::RefCell::new(None) });
        W.with(|w| {
            let mut w = w.borrow_mut();
            if w.is_none() {
                let base = dir.join("lazy");
                *w = Some((Origin::start(), new_http(&base), base));
            }
            let (origin, http, base) = w.as_ref().unwrap();
            lazy_case(c, rep, origin, http, base, depth, small);
        });
    });
    finish(ctx, Level {
        level: "model_checking",
        rule: "every sequence of up to `depth` (seek, read) pairs at boundary offsets on files around the fetch size, against every server behaviour; and with one misbehaving answer at every position among the range responses: conforming servers must give the file's bytes and positions, others the bytes or an error; states = distinct (position, result) pairs, transitions = operations; distinct = distinct (server, results) sequences",
        assumptions: &["a server that labels its ranges truthfully; bytes altered under a truthful label are undetectable without a hash"],
    })
}

fn lazy_ops(len: u64) -> Vec<(SOp, usize)> {
    let l = len;
    let mut v = vec![];
    for (p, n) in [
        (0u64, 1usize),
        (0, 40_000),
        (l.saturating_sub(1), 5),
        (l, 1),
        (l + 7, 4),
        (l / 2, 10_000),
        (9_999, 2),
        (10_000, 10_001),
        (l.saturating_sub(10_000), 3),
        (l.saturating_sub(10_001), 12_000),
        (5, 0),
    ] {
        v.push((SOp::S(p), n));
    }
    for (d, n) in [(-1i64, 4usize), (0, 1), (-22, 22), (3, 1), (-70_000, 3)] {
        v.push((SOp::E(d), n));
    }
    for (d, n) in [(0i64, 5usize), (-3, 6), (9_998, 4), (i64::MAX, 1)] {
        v.push((SOp::C(d), n));
    }
    v.push((SOp::S(0), usize::MAX)); // to the end
    v
}

fn lazy_case(c: &LCase, rep: &mut Rep, origin: &Origin, http: &Http, base: &Path, depth: usize, deep_bad: bool) {
    let data = file_bytes(c.len);
    let ops = lazy_ops(c.len as u64);
    let body = Arc::new(data.clone());
    let ai = wheel_ai(&origin.url("/f/foo-1.0-py3-none-any.whl"), c.hashed.then(|| sha256(&data)));
    // all continuations after the first operation
    let mut seqs: Vec<Vec<usize>> = vec![vec![c.first]];
    let mut all: Vec<Vec<usize>> = vec![];
    for _ in 1..depth {
        let mut next = vec![];
        for s in &seqs {
            for i in 0..ops.len() {
                let mut t = s.clone();
                t.push(i);
                next.push(t);
            }
        }
        seqs = next;
    }
    all.extend(seqs);
    if c.bad.is_some() && depth > 2 && !deep_bad {
        all.truncate(400);
    }
    let mut states = std::collections::BTreeSet::new();
    for seq in &all {
        // position of the bad answer among the responses: 0, 1, 2 (beyond: no effect)
        let places: Vec<Option<usize>> = if c.bad.is_some() { {
            // an untrue length in the first answer cannot be noticed: it is the only source
            let from = if matches!(c.bad, Some(Bad::SmallerTotal | Bad::Replaced | Bad::OtherFull200)) { 1 } else { 0 };
            (from..from + 3).map(Some).collect()
        } } else { vec![None] };
        for place in places {
            let (srv, bad, b2) = (c.srv, c.bad, body.clone());
            let count = Arc::new(AtomicU64::new(0));
            let cnt = count.clone();
            let hit = Arc::new(AtomicU64::new(0));
            let hit2 = hit.clone();
            let stuck: Arc<Mutex<Option<String>>> = Default::default();
            origin.set(move |req| {
                // one logical answer: retries of the same request get the same treatment
                let id = format!("{} {} {:?}", req.method, req.path, req.header("range"));
                let mut s = stuck.lock().unwrap();
                let k = if s.as_deref() == Some(&id) { cnt.load(Ordering::SeqCst) - 1 } else { cnt.fetch_add(1, Ordering::SeqCst) };
                if let (Some(b), Some(p)) = (bad, place) {
                    if k == p as u64 || (b == Bad::Replaced && k > p as u64) {
                        *s = Some(id);
                        hit2.fetch_add(1, Ordering::SeqCst);
                        return bad_resp(b, req, &b2);
                    }
                }
                *s = None;
                srv_resp(srv, req, &b2)
            });
            // a server may ignore the Range header of any request
            let strict = place.is_none() || c.bad == Some(Bad::Full200);
            let name = || format!("{c:?} place={place:?} ops={:?}", seq.iter().map(|i| ops[*i]).collect::<Vec<_>>());
            rep.traces += 1;
            let run = guard(|| -> std::result::Result<String, String> {
                let mut f = match http.get_lazy(&ai) {
                    Ok(f) => f,
                    Err(e) => {
                        if strict {
                            return Err(format!("opening failed: {e:#}"));
                        }
                        return Ok("open-error".into());
                    }
                };
                let mut pos = 0u64;
                let mut sig = String::new();
                for &i in seq {
                    let (sk, n) = ops[i];
                    sig.push_str(&step(&mut f, &data, &mut pos, sk, false)?);
                    let r = if n == usize::MAX {
                        let mut v = vec![];
                        match f.read_to_end(&mut v) {
                            Ok(_) => {
                                let p = (pos as usize).min(data.len());
                                if v != data[p..] {
                                    return Err(format!("read to end at {pos} gave {} bytes, wrong", v.len()));
                                }
                                pos = pos.max(data.len() as u64);
                                Ok("e")
                            }
                            Err(e) => Err((e, v)),
                        }
                    } else {
                        let mut left = n;
                        let mut res = Ok("r");
                        // read_exact-like loop: every partial read must be right
                        while left > 0 {
                            let mut buf = vec![0u8; left];
                            match f.read(&mut buf) {
                                Ok(0) => {
                                    if pos < data.len() as u64 {
                                        return Err(format!("early end of file at {pos} of {}", data.len()));
                                    }
                                    break;
                                }
                                Ok(k) => {
                                    let p = pos as usize;
                                    if p + k > data.len() || buf[..k] != data[p..p + k] {
                                        return Err(format!("wrong bytes at {pos} (+{k})"));
                                    }
                                    pos += k as u64;
                                    left -= k;
                                }
                                Err(e) => {
                                    res = Err((e, vec![]));
                                    break;
                                }
                            }
                        }
                        res
                    };
                    match r {
                        Ok(x) => sig.push_str(x),
                        Err(_) if pos > i64::MAX as u64 / 2 => sig.push_str("far"),
                        Err((e, v)) => {
                            if strict {
                                return Err(format!("reading at {pos}: {e}"));
                            }
                            // bytes delivered before the error must be right too
                            let p = (pos as usize).min(data.len());
                            if v.len() > data.len() - p || v[..] != data[p..p + v.len()] {
                                return Err(format!("wrong bytes at {pos} before an error"));
                            }
                            sig.push_str("err");
                            pos = f.stream_position().map_err(|e| format!("position after an error: {e}"))?;
                        }
                    }
                    rep.transitions += 2;
                    states.insert((pos, sig.len()));
                }
                Ok(sig)
            })
            .and_then(|x| x);
            match run {
                Ok(sig) => {
                    rep.case(&format!("{} {:?} {:?} {place:?} {sig}", c.len, c.srv, c.bad), c.len > 0 && (place.is_none() || hit.load(Ordering::SeqCst) > 0));
                    rep.outcome(if sig.contains("err") { "error reported" } else if place.is_some() { "absorbed" } else { "exact bytes" });
                    if place == Some(1) && sig.contains("err") {
                        rep.sample(json!({"file_length": c.len, "misbehaviour": format!("{:?} at range response 1", c.bad), "result": sig}));
                    }
                }
                Err(m) => {
                    rep.violation(format!("{c:?}"), format!("{}: {m}", name()));
                    return;
                }
            }
            if matches!(c.srv, Srv::NoRange | Srv::HeadIgnoresRange) || c.bad.is_some() {
                wipe(base);
            }
        }
    }
    rep.states += states.len() as u64;
}

// ---- P05 ----------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum B {
    Good,
    GoodChunked,
    GoodClose,
    Flipped,
    Extended,
    Prefix,
    Cut,
    CutClose,
    Empty,
    NotFound,
    NotFoundGoodBody,
    ServerError,
    Reset,
    RedirGood,
    RedirBad,
    RedirLoop,
    Other,
}
const BEH: [B; 17] = [
    B::Good, B::GoodChunked, B::GoodClose, B::Flipped, B::Extended, B::Prefix, B::Cut, B::CutClose, B::Empty,
    B::NotFound, B::NotFoundGoodBody, B::ServerError, B::Reset, B::RedirGood, B::RedirBad, B::RedirLoop, B::Other,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum M {
    Fetch,
    CacheOnly,
    /// another artifact, under another hash, from the same URL
    FetchOther,
    BadAlgo,
    Unhashed,
}

fn beh_resp(b: B, req: &Req, good: &[u8], other: &[u8]) -> Resp {
    if req.path.starts_with("/good") {
        return Resp::new(200, good);
    }
    if req.path.starts_with("/bad") {
        return Resp::new(200, "evil bytes, not the artifact");
    }
    let mut flipped = good.to_vec();
    if let Some(x) = flipped.last_mut() {
        *x ^= 1;
    }
    match b {
        B::Good => Resp::new(200, good),
        B::GoodChunked => Resp::new(200, good).framing(Framing::Chunked),
        B::GoodClose => Resp::new(200, good).framing(Framing::Close),
        B::Flipped => Resp::new(200, flipped),
        B::Extended => Resp::new(200, [good, b"!"].concat()),
        B::Prefix => Resp::new(200, &good[..good.len() - 1]),
        B::Cut => Resp { cut: Some(good.len() / 2), ..Resp::new(200, good) },
        B::CutClose => Resp { cut: Some(good.len() / 2), ..Resp::new(200, good).framing(Framing::Close) },
        B::Empty => Resp::new(200, ""),
        B::NotFound => Resp::new(404, "not here"),
        B::NotFoundGoodBody => Resp::new(404, good),
        B::ServerError => Resp::new(500, "boom"),
        B::Reset => Resp { reset: true, ..Resp::new(200, "") },
        B::RedirGood => Resp::new(302, "moved").h("Location", "/good"),
        B::RedirBad => Resp::new(301, "moved").h("Location", "/bad").h("Cache-Control", "max-age=1000"),
        B::RedirLoop => Resp::new(302, "loop").h("Location", req.path.clone()),
        B::Other => Resp::new(200, other),
    }
}

#[derive(Clone, Debug)]
enum HCase {
    /// cacheable: what servers send may be kept, by the rules of HTTP
    Seq { first: (M, B), size: usize, cacheable: bool },
    Faults { b: B, size: usize },
    Race { a: Vec<M>, b: Vec<M>, beh: [B; 2], bound: usize },
}

pub fn p05(mut ctx: Ctx) -> i32 {
    let modes = [M::Fetch, M::CacheOnly, M::FetchOther, M::BadAlgo, M::Unhashed];
    let mut cases = vec![];
    let sizes = ctx.pick(vec![1usize, 20_000], vec![1, 2, 20_000, 300_000]);
    for &size in &sizes {
        for m in modes {
            for b in BEH {
                for cacheable in [false, true] {
                    cases.push(HCase::Seq { first: (m, b), size, cacheable });
                }
            }
        }
    }
    for b in [B::Good, B::GoodChunked, B::Flipped, B::Cut] {
        cases.push(HCase::Faults { b, size: 20_000 });
    }
    let bound = ctx.pick(1, 2);
    for beh in [[B::Good, B::Good], [B::Flipped, B::Good], [B::Cut, B::Good], [B::Good, B::Flipped], [B::Flipped, B::Flipped]] {
        cases.push(HCase::Race { a: vec![M::Fetch], b: vec![M::Fetch], beh, bound });
        cases.push(HCase::Race { a: vec![M::Fetch], b: vec![M::CacheOnly, M::Fetch], beh, bound });
    }
    let depth = ctx.pick(3usize, 3);
    let follow: Vec<(M, B)> = ctx.pick(
        vec![
            (M::Fetch, B::Good), (M::Fetch, B::Flipped), (M::Fetch, B::Cut), (M::Fetch, B::NotFound), (M::Fetch, B::Reset),
            (M::CacheOnly, B::Good), (M::FetchOther, B::Other), (M::FetchOther, B::Good), (M::Unhashed, B::Flipped), (M::Unhashed, B::Good),
        ],
        modes.iter().flat_map(|m| BEH.iter().map(move |b| (*m, *b))).collect(),
    );
    ctx.run_cases(&cases, |c| format!("{c:?}"), |c, rep, dir| {
        sys::NO_SLEEP.store(1, Ordering::Relaxed);
        thread_local!(static W: std::cell::RefCell<Option<(Origin, Http, PathBuf)>> = const { std::cell::RefCell::new(None) });
        W.with(|w| {
            let mut w = w.borrow_mut();
            if w.is_none() {
                let base = dir.join("dl");
                *w = Some((Origin::start(), new_http(&base), base));
            }
            let (origin, http, base) = w.as_ref().unwrap();
            match c {
                HCase::Seq { first, size, cacheable } => {
                    let mut seqs: Vec<Vec<(M, B)>> = vec![vec![*first]];
                    for _ in 1..depth {
                        seqs = seqs.iter().flat_map(|s| follow.iter().map(move |f| { let mut t = s.clone(); t.push(*f); t })).collect();
                    }
                    for seq in seqs {
                        wipe(base);
                        rep.traces += 1;
                        match guard(|| hashed_seq(origin, http, base, &seq, *size, *cacheable, rep)).and_then(|x| x) {
                            Ok(sig) => {
                                rep.case(&format!("{seq:?} {cacheable} {sig}"), true);
                            }
                            Err(m) => {
                                rep.violation(format!("{c:?}"), format!("{seq:?}, {size} bytes: {m}"));
                                return;
                            }
                        }
                    }
                }
                HCase::Faults { b, size } => {
                    let good = file_bytes(*size);
                    let hash = sha256(&good);
                    let mut n = 0;
                    'outer: loop {
                        let mut ended = false;
                        for f in [Fault::Errno(sys::EIO), Fault::Errno(sys::ENOSPC), Fault::Errno(sys::EINTR), Fault::ShortHalf, Fault::Die, Fault::DieTorn] {
                            wipe(base);
                            let (g, bb) = (good.clone(), *b);
                            origin.set(move |r| beh_resp(bb, r, &g, b"other"));
                            let env = FaultEnv::new(base, vec![(n, f)], true);
                            let url = Url::parse(&origin.url("/x")).unwrap();
                            let r = with_env(&env, || guard(|| {
                                http.get_hashed(&url, Some(&hash), CacheMode::Default)
                                    .map_err(|e| e.to_string())
                                    .and_then(|mut f| slurp(&mut f).map_err(|e| e.to_string()))
                            }));
                            ended |= env.ops() <= n;
                            rep.traces += 1;
                            rep.transitions += env.ops() as u64;
                            rep.case(&format!("{c:?} {n} {f:?}"), env.ops() > n);
                            let mut bad = None;
                            match r {
                                Err(p) => bad = Some(p),
                                Ok(Ok(v)) if v != good && !env.crashed() => bad = Some("handed out bytes that do not match the hash".to_string()),
                                Ok(Ok(_)) => rep.outcome("download completed despite the fault"),
                                Ok(Err(_)) => rep.outcome("download refused under the fault"),
                            }
                            if bad.is_none() {
                                // what a later process finds
                                let h2 = Http::new(KVFileStore::new(&base.join("http")).unwrap(), KVFileStore::new(&base.join("by-hash")).unwrap());
                                match guard(|| h2.get_hashed(&url, Some(&hash), CacheMode::OnlyIfCached)) {
                                    Ok(Ok(mut f)) => if slurp(&mut f).ok().as_deref() != Some(&good[..]) { bad = Some("the cache holds bytes that do not match the hash".into()) },
                                    Ok(Err(e)) => if e.downcast_ref::<NotCached>().is_none() { bad = Some(format!("cache lookup fails: {e:#}")) },
                                    Err(p) => bad = Some(p),
                                }
                                let g = good.clone();
                                origin.set(move |r| beh_resp(B::Good, r, &g, b"other"));
                                match guard(|| h2.get_hashed(&url, Some(&hash), CacheMode::Default)) {
                                    Ok(Ok(mut f)) => if slurp(&mut f).ok().as_deref() != Some(&good[..]) { bad = Some("a later download is wrong".into()) },
                                    Ok(Err(e)) => bad = Some(format!("a later good download fails: {e:#}")),
                                    Err(p) => bad = Some(p),
                                }
                            }
                            if let Some(m) = bad {
                                rep.violation(format!("{c:?}"), format!("{b:?} with fault {f:?} at file operation {n}: {m}"));
                                break 'outer;
                            }
                        }
                        if ended {
                            break;
                        }
                        n += 1;
                    }
                }
                HCase::Race { a, b, beh, bound } => {
                    let good = file_bytes(3000);
                    let hash = sha256(&good);
                    let mut first = None;
                    let url = origin.url("/x");
                    let mut one = |prefix: &[usize]| {
                        wipe(base);
                        let (g, bh) = (good.clone(), *beh);
                        let mut k = 0;
                        origin.set(move |r| {
                            let b = bh[k.min(1)];
                            k += 1;
                            beh_resp(b, r, &g, b"other")
                        });
                        let errs: Arc<Mutex<Vec<String>>> = Default::default();
                        let oks = Arc::new(AtomicU64::new(0));
                        let mut bodies: Vec<super::sched::Body> = vec![];
                        for prog in [a.clone(), b.clone()] {
                            let (errs, oks, hash, good, url, base) = (errs.clone(), oks.clone(), hash.clone(), good.clone(), url.clone(), base.clone());
                            bodies.push(Box::new(move || {
                                let r = guard(|| {
                                    let http = sys::quiet(|| new_http(&base));
                                    for m in prog {
                                        let mode = if m == M::CacheOnly { CacheMode::OnlyIfCached } else { CacheMode::Default };
                                        if let Ok(mut f) = http.get_hashed(&Url::parse(&url).unwrap(), Some(&hash), mode) {
                                            if slurp(&mut f).ok().as_deref() != Some(&good[..]) {
                                                errs.lock().unwrap().push(format!("{m:?} handed out bytes that do not match the hash"));
                                            }
                                            oks.fetch_add(1, Ordering::SeqCst);
                                        }
                                    }
                                });
                                if let Err(e) = r {
                                    errs.lock().unwrap().push(e);
                                }
                            }));
                        }
                        let ex = super::sched::run_one(base.to_str().unwrap(), bodies, prefix);
                        let contacts = origin.take_log().len();
                        let mut e = ex.deadlock.clone().or(errs.lock().unwrap().first().cloned());
                        if e.is_none() && ex.diverged.is_none() {
                            let h2 = new_http(base);
                            match h2.get_hashed(&Url::parse(&url).unwrap(), Some(&hash), CacheMode::OnlyIfCached) {
                                Ok(mut f) => if slurp(&mut f).ok().as_deref() != Some(&good[..]) { e = Some("the cache holds bytes that do not match the hash".into()) },
                                Err(_) => if oks.load(Ordering::SeqCst) > 0 { e = Some("a successful download was not kept".into()) },
                            }
                            if beh[0] == B::Good && contacts > 1 {
                                e = Some(format!("one artifact was downloaded {contacts} times at once"));
                            }
                        }
                        (ex, e)
                    };
                    let st = super::sched::explore(*bound, 50_000, |p| {
                        let (ex, e) = one(p);
                        let stop = e.is_some();
                        if let Some(m) = e {
                            first = Some((ex.choices(), format!("{m}; schedule {}", ex.trace.join(" | "))));
                        }
                        (ex, stop)
                    });
                    if let Some((ch, m)) = first {
                        match one(&ch).1 {
                            Some(_) => rep.violation(format!("{c:?}"), m),
                            None => panic!("schedule failed once and then passed: {m}"),
                        }
                    }
                    if let Some(d) = st.diverged {
                        panic!("replay diverged: {d}");
                    }
                    rep.evaluations += st.executions;
                    rep.traces += st.executions;
                    rep.states += st.nodes;
                    rep.transitions += st.transitions;
                    rep.outcome("race explored");
                    rep.distinct.insert(super::core::h64(&format!("{c:?}")));
                }
            }
        });
    });
    finish(ctx, Level {
        level: "model_checking",
        rule: "every sequence of (request mode, server behaviour) steps up to the depth over one cache, every file fault or process death during a download, and every interleaving (preemption bound) of two concurrent downloads; states = cache states seen (cached set) and scheduler nodes; distinct = distinct (sequence, result) pairs",
        assumptions: &["SHA-256 has no collisions among the bodies used"],
    })
}

fn hashed_seq(origin: &Origin, http: &Http, _base: &Path, seq: &[(M, B)], size: usize, cacheable: bool, rep: &mut Rep) -> std::result::Result<String, String> {
    let good = file_bytes(size);
    let other = vec![b'o'; size + 1];
    let (hg, ho) = (sha256(&good), sha256(&other));
    let url = Url::parse(&origin.url("/x")).unwrap();
    let mut cached = [false, false];
    let mut sig = String::new();
    for (i, (m, b)) in seq.iter().enumerate() {
        let (g, o, bb) = (good.clone(), other.clone(), *b);
        origin.set(move |r| {
            let resp = beh_resp(bb, r, &g, &o);
            if cacheable { resp.h("Cache-Control", "max-age=1000") } else { resp }
        });
        let bad_algo = ArtifactHash { mode: "md5".into(), raw_data: hg.raw_data[..16].to_vec() };
        let (hash, want, slot): (Option<&ArtifactHash>, &[u8], Option<usize>) = match m {
            M::Fetch | M::CacheOnly => (Some(&hg), &good, Some(0)),
            M::FetchOther => (Some(&ho), &other, Some(1)),
            M::BadAlgo => (Some(&bad_algo), &good, None),
            M::Unhashed => (None, &good, None),
        };
        let mode = if *m == M::CacheOnly { CacheMode::OnlyIfCached } else { CacheMode::Default };
        let r = http.get_hashed(&url, hash, mode).and_then(|mut f| {
            let v = slurp(&mut f)?;
            // the result is seekable, too
            f.seek(SeekFrom::Start(0))?;
            let again = slurp(&mut f)?;
            if again != v {
                bail!("VERIF: rereading the result gives other bytes");
            }
            Ok(v)
        });
        let contacts = origin.take_log().len();
        rep.transitions += 1;
        let at = format!("step {i} {m:?}/{b:?}");
        match &r {
            Err(e) if e.to_string().contains("VERIF") => return Err(format!("{at}: {e}")),
            Ok(v) if *m != M::Unhashed => {
                if v != want {
                    return Err(format!("{at}: returned {} bytes that do not match the hash", v.len()));
                }
                if *m == M::BadAlgo {
                    return Err(format!("{at}: returned bytes without being able to check the hash"));
                }
            }
            _ => {}
        }
        if *m == M::CacheOnly && contacts > 0 {
            return Err(format!("{at}: a cache-only request used the network"));
        }
        if let Some(s) = slot {
            if cached[s] {
                if r.is_err() {
                    return Err(format!("{at}: a cached artifact is refused: {}", r.err().unwrap()));
                }
                if contacts > 0 {
                    return Err(format!("{at}: a cached artifact was downloaded again"));
                }
            } else if *m == M::CacheOnly {
                match &r {
                    Ok(_) => return Err(format!("{at}: cache-only request found something never stored")),
                    Err(e) if e.downcast_ref::<NotCached>().is_none() => return Err(format!("{at}: cache miss reported as another error: {e:#}")),
                    _ => {}
                }
            } else {
                let deliverable = match m {
                    M::Fetch => matches!(b, B::Good | B::GoodChunked | B::GoodClose | B::RedirGood),
                    _ => matches!(b, B::Other),
                };
                if deliverable && r.is_err() {
                    return Err(format!("{at}: a correct download is refused: {:#}", r.err().unwrap()));
                }
                cached[s] = r.is_ok();
            }
        }
        sig.push(if r.is_ok() { 'o' } else { 'e' });
        rep.outcome(&format!("{m:?}: {}", if r.is_ok() { "ok" } else { "refused" }));
        rep.states += 1;
    }
    if seq.len() == 3 && sig == "eoo" {
        rep.sample(json!({"steps": format!("{seq:?}"), "results": sig, "bytes": size}));
    }
    Ok(sig)
}
