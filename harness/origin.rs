//! A small HTTP/1.1 origin server whose every answer is decided by the harness.
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Default)]
pub struct Req {
    pub method: String,
    pub path: String,
    pub headers: Vec<(String, String)>,
}

impl Req {
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers
            .iter()
            .find(|(k, _)| k.eq_ignore_ascii_case(name))
            .map(|(_, v)| v.as_str())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Framing {
    Length,
    Chunked,
    Close,
}

#[derive(Clone, Debug)]
pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub framing: Framing,
    /// send only this many body bytes, then drop the connection
    pub cut: Option<usize>,
    /// drop the connection without any answer
    pub reset: bool,
}

impl Resp {
    pub fn new(status: u16, body: impl Into<Vec<u8>>) -> Resp {
        Resp {
            status,
            headers: vec![],
            body: body.into(),
            framing: Framing::Length,
            cut: None,
            reset: false,
        }
    }
    pub fn h(mut self, k: &str, v: impl Into<String>) -> Resp {
        self.headers.push((k.into(), v.into()));
        self
    }
    pub fn framing(mut self, f: Framing) -> Resp {
        self.framing = f;
        self
    }
}

pub type Handler = Box<dyn FnMut(&Req) -> Resp + Send>;

pub struct Origin {
    pub port: u16,
    handler: Arc<Mutex<Handler>>,
    pub log: Arc<Mutex<Vec<Req>>>,
}

impl Origin {
    /// One listening server; the handler can be swapped per case.
    pub fn start() -> Origin {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        let handler: Arc<Mutex<Handler>> =
            Arc::new(Mutex::new(Box::new(|_: &Req| Resp::new(404, "no handler"))));
        let log: Arc<Mutex<Vec<Req>>> = Default::default();
        let (h2, l2) = (handler.clone(), log.clone());
        std::thread::spawn(move || {
            for c in l.incoming() {
                if let Ok(c) = c {
                    let (h, l) = (h2.clone(), l2.clone());
                    std::thread::spawn(move || {
                        serve(c, h, l);
                    });
                }
            }
        });
        Origin { port, handler, log }
    }
    pub fn set(&self, h: impl FnMut(&Req) -> Resp + Send + 'static) {
        *self.handler.lock().unwrap() = Box::new(h);
        self.log.lock().unwrap().clear();
    }
    pub fn take_log(&self) -> Vec<Req> {
        std::mem::take(&mut *self.log.lock().unwrap())
    }
    pub fn url(&self, path: &str) -> String {
        format!("http://127.0.0.1:{}{}", self.port, path)
    }
}

fn serve(c: TcpStream, h: Arc<Mutex<Handler>>, log: Arc<Mutex<Vec<Req>>>) -> Option<()> {
    c.set_nodelay(true).ok();
    let mut w = c.try_clone().ok()?;
    let mut r = BufReader::new(c);
    loop {
        let mut line = String::new();
        if r.read_line(&mut line).ok()? == 0 {
            return None;
        }
        let mut it = line.split_whitespace();
        let mut req = Req {
            method: it.next()?.into(),
            path: it.next()?.into(),
            headers: vec![],
        };
        loop {
            let mut l = String::new();
            if r.read_line(&mut l).ok()? == 0 {
                return None;
            }
            let l = l.trim_end();
            if l.is_empty() {
                break;
            }
            let (k, v) = l.split_once(':')?;
            req.headers.push((k.trim().to_string(), v.trim().to_string()));
        }
        if let Some(n) = req.header("content-length").and_then(|x| x.parse::<u64>().ok()) {
            std::io::copy(&mut (&mut r).take(n), &mut std::io::sink()).ok()?;
        }
        log.lock().unwrap().push(req.clone());
        let resp = (h.lock().unwrap())(&req);
        if resp.reset {
            return None;
        }
        let mut out = format!("HTTP/1.1 {} X\r\n", resp.status).into_bytes();
        for (k, v) in &resp.headers {
            out.extend(format!("{k}: {v}\r\n").as_bytes());
        }
        let bodyless = req.method == "HEAD" || resp.status == 304 || resp.status == 204;
        let mut close = resp.cut.is_some();
        match resp.framing {
            Framing::Length => {
                if !(resp.status == 304 || resp.status == 204) {
                    out.extend(format!("Content-Length: {}\r\n", resp.body.len()).as_bytes())
                }
            }
            Framing::Chunked => out.extend(b"Transfer-Encoding: chunked\r\n"),
            Framing::Close => {
                out.extend(b"Connection: close\r\n");
                close = true;
            }
        }
        out.extend(b"\r\n");
        if !bodyless {
            let n = resp.cut.unwrap_or(resp.body.len()).min(resp.body.len());
            let b = &resp.body[..n];
            if resp.framing == Framing::Chunked {
                for c in b.chunks((b.len() / 16).max(7)) {
                    out.extend(format!("{:x}\r\n", c.len()).as_bytes());
                    out.extend(c);
                    out.extend(b"\r\n");
                }
                if resp.cut.is_none() {
                    out.extend(b"0\r\n\r\n");
                }
            } else {
                out.extend(b);
            }
        }
        w.write_all(&out).ok()?;
        w.flush().ok()?;
        if close {
            w.shutdown(std::net::Shutdown::Both).ok();
            return None;
        }
    }
}

/// A conforming range-capable answer for GET/HEAD of `body`.
pub fn range_resp(req: &Req, body: &[u8]) -> Resp {
    match parse_range(req) {
        None => Resp::new(200, body),
        Some((a, b)) => {
            let len = body.len() as u64;
            if a >= len {
                Resp::new(416, "").h("Content-Range", format!("bytes */{len}"))
            } else {
                let b = b.min(len - 1);
                Resp::new(206, &body[a as usize..=b as usize])
                    .h("Content-Range", format!("bytes {a}-{b}/{len}"))
            }
        }
    }
}

pub fn parse_range(req: &Req) -> Option<(u64, u64)> {
    let r = req.header("range")?.strip_prefix("bytes=")?;
    let (a, b) = r.split_once('-')?;
    let (a, b) = (a.parse().ok()?, b.parse().ok()?);
    (a <= b).then_some((a, b))
}

pub fn http_date(secs: i64) -> String {
    let days = secs.div_euclid(86400);
    let s = secs.rem_euclid(86400);
    // civil from days
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + (m <= 2) as i64;
    let wd = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"][days.rem_euclid(7) as usize];
    let mo = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
        [(m - 1) as usize];
    format!("{wd}, {d:02} {mo} {y} {:02}:{:02}:{:02} GMT", s / 3600, s / 60 % 60, s % 60)
}
