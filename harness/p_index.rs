//! P18: index pages.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

use serde_json::json;

use super::core::*;
use super::origin::*;
use super::sys;
use crate::package_db::verif::*;
use crate::prelude::*;

const H1: &str = "9c7ed1509d1809656c86aa1201fde2650ec056ab79f6546ba8205f6e42cff949";
const H2: &str = "c27c231e66336183c484fbfe080fa6cc954149366c15dc21db8b7290081ec7b8";

/// What one link must be read as (reference and file name; the rest as in the page).
#[derive(Clone, Debug)]
struct E {
    href: String,
    file: &'static str,
    hash: Option<&'static str>,
    rp: &'static str,
    yanked: Option<&'static str>,
    meta: (bool, Option<&'static str>),
}

#[derive(Clone, Debug)]
struct Link {
    html: String,
    exp: Vec<E>,
}

fn e(href: &str, file: &'static str) -> E {
    E { href: href.into(), file, hash: None, rp: "", yanked: None, meta: (false, None) }
}

fn links() -> Vec<Link> {
    let mut v: Vec<Link> = vec![];
    let mut add = |html: String, exp: Vec<E>| v.push(Link { html, exp });
    // every form of reference
    for href in ["foo-1.0.tar.gz", "../../files/ab/foo-1.0.tar.gz", "./x/foo-1.0.tar.gz", "/abs/foo-1.0.tar.gz", "//cdn.example/p/foo-1.0.tar.gz", "https://files.example/pkgs/foo-1.0.tar.gz", "http://files.example:8080/foo-1.0.tar.gz", "../../../../../foo-1.0.tar.gz", "foo-1.0.tar.gz?sig=a/b", "x/../y/foo-1.0.tar.gz"] {
        add(format!("<a href=\"{href}\">foo-1.0.tar.gz</a>"), vec![e(href, "foo-1.0.tar.gz")]);
    }
    add(format!("<a href=\"foo-1.1.tar.gz#sha256={H1}\">x</a>"), vec![E { hash: Some(H1), ..e(&format!("foo-1.1.tar.gz#sha256={H1}"), "foo-1.1.tar.gz") }]);
    add(format!("<a href=\"foo-1.1.tar.gz?a=1&amp;b=2#sha256={}\">x</a>", H2.to_uppercase()), vec![E { hash: Some(H2), ..e(&format!("foo-1.1.tar.gz?a=1&b=2#sha256={}", H2.to_uppercase()), "foo-1.1.tar.gz") }]);
    add("<a href=\"foo-1.0%2Blocal.5-py3-none-any.whl\">x</a>".into(), vec![e("foo-1.0%2Blocal.5-py3-none-any.whl", "foo-1.0+local.5-py3-none-any.whl")]);
    add("<a href=\"foo-1.0%2b5.zip\">x</a>".into(), vec![e("foo-1.0%2b5.zip", "foo-1.0+5.zip")]);
    add("<a href=\"foo-1%212.0.zip\">x</a>".into(), vec![e("foo-1%212.0.zip", "foo-1!2.0.zip")]);
    add("<a href=\"%66oo-2.0.zip\">x</a>".into(), vec![e("%66oo-2.0.zip", "foo-2.0.zip")]);
    add("<a href=\"/%7Euser/foo-1.0+x.zip\">x</a>".into(), vec![e("/%7Euser/foo-1.0+x.zip", "foo-1.0+x.zip")]);
    // names
    add("<a href=foo-2.0-py2.py3-none-any.whl>x</a>".into(), vec![e("foo-2.0-py2.py3-none-any.whl", "foo-2.0-py2.py3-none-any.whl")]);
    add("<a href='Foo-2.0-1-cp311-abi3-manylinux2014_x86_64.manylinux_2_17_x86_64.whl'>x</a>".into(), vec![e("Foo-2.0-1-cp311-abi3-manylinux2014_x86_64.manylinux_2_17_x86_64.whl", "Foo-2.0-1-cp311-abi3-manylinux2014_x86_64.manylinux_2_17_x86_64.whl")]);
    let pybi = "foo-3.11-macosx_11_0_universal2.win_amd64.pybi";
    add(format!("<a href=\"{pybi}#sha256={H1}\">x</a>"), ["foo-3.11-macosx_11_0_arm64.pybi", "foo-3.11-macosx_11_0_x86_64.pybi", "foo-3.11-win_amd64.pybi"].into_iter().map(|f| E { hash: Some(H1), ..e(&format!("{pybi}#sha256={H1}"), f) }).collect());
    add("<a href=\"other-project-7.0.tar.gz\">x</a>".into(), vec![e("other-project-7.0.tar.gz", "other-project-7.0.tar.gz")]);
    // attributes
    for (txt, val) in [("&gt;=3.7", ">=3.7"), ("&gt;=3.7,&lt;4", ">=3.7,<4"), (">=3.6, !=3.0.*", ">=3.6, !=3.0.*"), ("&#62;3", ">3"), ("gibberish!", "gibberish!"), ("", "")] {
        add(format!("<a data-requires-python=\"{txt}\" href=\"foo-1.2.zip\">x</a>"), vec![E { rp: val, ..e("foo-1.2.zip", "foo-1.2.zip") }]);
    }
    add("<a href=\"foo-1.3.zip\" data-yanked=\"bad &amp; broken\">x</a>".into(), vec![E { yanked: Some("bad & broken"), ..e("foo-1.3.zip", "foo-1.3.zip") }]);
    add("<a href=\"foo-1.3.zip\" data-yanked=\"\">x</a>".into(), vec![E { yanked: Some(""), ..e("foo-1.3.zip", "foo-1.3.zip") }]);
    add("<a data-yanked href=\"foo-1.4.zip\">x</a>".into(), vec![E { yanked: Some(""), ..e("foo-1.4.zip", "foo-1.4.zip") }]);
    let w = "foo-1.5-py3-none-any.whl";
    add(format!("<a href=\"{w}\" data-dist-info-metadata=\"true\">x</a>"), vec![E { meta: (true, None), ..e(w, w) }]);
    add(format!("<a href=\"{w}\" data-dist-info-metadata=\"sha256={H2}\">x</a>"), vec![E { meta: (true, Some(H2)), ..e(w, w) }]);
    add(format!("<a href=\"{w}\" data-dist-info-metadata=\"nohash=00\">x</a>"), vec![E { meta: (true, None), ..e(w, w) }]);
    add(format!("<A\n  DATA-Requires-Python='>=3'\n\tHREF = \" foo-1.6.zip#sha256={H1} \" \n data-yanked='no' data-dist-info-metadata=true rel=nofollow>x</A\n>"), vec![E { hash: Some(H1), rp: ">=3", yanked: Some("no"), meta: (true, None), ..e(&format!("foo-1.6.zip#sha256={H1}"), "foo-1.6.zip") }]);
    add("<a href=\"foo-1.7.zip\" href=\"foo-9.9.zip\">x</a>".into(), vec![e("foo-1.7.zip", "foo-1.7.zip")]);
    add("<a href=\"foo-1.8.zip\">never closed".into(), vec![e("foo-1.8.zip", "foo-1.8.zip")]);
    add("<a href=\"foo-1.9.zip\"><b>bold <i>both</b> italic</i></a>".into(), vec![e("foo-1.9.zip", "foo-1.9.zip")]);
    // things that are not usable links
    for html in ["<a href=\"foo-1.0.exe\">x</a>", "<a href=\"foo-notaversion.tar.gz\">x</a>", "<a href=\"foo-1.0-py3.whl\">x</a>", "<a href=\"http://[::bad/foo-6.0.tar.gz\">x</a>", "<a href=\"mailto:foo-6.0.tar.gz\">x</a>", "<a href=\"\">x</a>", "<a href=\"foo-6.0.zip/\">x</a>", "<a href=\"#foo-6.0.zip\">x</a>", "<a href=\"?foo-6.0.zip\">x</a>", "<a name=\"foo-6.0.zip\">foo-6.0.zip</a>", "<!-- <a href=\"foo-6.0.zip\">x</a> -->", "<script>var x = '<a href=\"foo-6.0.zip\">x</a>';</script>", "<textarea><a href=\"foo-6.0.zip\">x</a></textarea>", "<link href=\"foo-6.0.zip\">", "&lt;a href=\"foo-6.0.zip\"&gt;", "foo-6.0.zip", "<a href=\"foo-6.0%FF.zip\">x</a>", "<a href=\"..%2F..%2Ffoo-6.0.zip\">x</a>", "<a href=\"foo-1.0-py3-none-..%2Fany.whl\">x</a>", "<a href=\"foo-6.0 .zip.asc\">x</a>"] {
        add(html.into(), vec![]);
    }
    v
}

/// (text in the page, base address given the page's; None: the page's own)
fn bases() -> Vec<(&'static str, Option<&'static str>)> {
    vec![
        ("", None),
        ("<base href=\"https://b.example/dir/sub/\">", Some("https://b.example/dir/sub/")),
        ("<base href=\"https://b.example/dir/page.html\">", Some("https://b.example/dir/page.html")),
        ("<base href=\"../files/\">", Some("../files/")),
        ("<BASE href='/root/dir/'/>", Some("/root/dir/")),
        ("<base href=\"//b.example/x/\"><base href=\"https://second.example/\">", Some("//b.example/x/")),
        ("<base target=\"_blank\"><base href=\"https://b.example/dir/\">", Some("https://b.example/dir/")),
        ("<base target=\"_blank\">", None),
        ("<!-- <base href=\"https://b.example/dir/\"> -->", None),
    ]
}

const PAGES: [&str; 4] = ["https://idx.example/simple/foo/", "http://idx.example:81/a/b/simple/foo/index.html", "https://idx.example/simple/foo?x=/y/", "https://idx.example/foo"];

const WRAPS: [(&str, &str, &str, &str); 6] = [
    // before the base, between, separator, end
    ("", "", "<br/>\n", ""),
    ("<!DOCTYPE html>\n<html><head><meta name=\"pypi:repository-version\" content=\"1.0\"><title>Links for foo \u{e9}</title>", "</head><body><h1>Links for foo</h1>\n", "<br/>\n", "</body></html>\n"),
    ("<html><head>", "</head><body><ul><li>", "</li>\r\n<li>", "</li></ul></body></html>"),
    ("", "<body><table><tr><td>", "</td></tr><tr><td>", "</td></tr></table>"),
    ("", "<body><p>", "<p>", ""),
    ("<html><meta charset=utf-8>", "<body><div>5 < 6 && &bogus; <unknown-tag>", " ", "</wrong></div><!-- unfinished"),
];

/// RFC 3986 resolution, for what is used here.
fn resolve(base: &str, r: &str) -> String {
    let (scheme, rest) = base.split_once("://").unwrap();
    let rest = rest.split('#').next().unwrap().split('?').next().unwrap();
    let (host, path) = match rest.find('/') {
        Some(i) => (&rest[..i], &rest[i..]),
        None => (rest, "/"),
    };
    if r.contains("://") && !r.starts_with('/') {
        return r.to_string();
    }
    if let Some(x) = r.strip_prefix("//") {
        return format!("{scheme}://{x}");
    }
    let cut = r.find(['?', '#']).unwrap_or(r.len());
    let (rp, tail) = r.split_at(cut);
    let full = if rp.starts_with('/') { rp.to_string() } else { format!("{}{}", &path[..path.rfind('/').unwrap() + 1], rp) };
    let mut out: Vec<&str> = vec![];
    let segs: Vec<&str> = full[1..].split('/').collect();
    for (i, s) in segs.iter().enumerate() {
        let last = i + 1 == segs.len();
        match *s {
            ".." => {
                out.pop();
                if last {
                    out.push("");
                }
            }
            "." => {
                if last {
                    out.push("")
                }
            }
            s => out.push(s),
        }
    }
    format!("{scheme}://{host}/{}{tail}", out.join("/"))
}

type Row = (String, String, String, String, String, String);

fn expected(base: &str, e: &E) -> Row {
    (
        e.file.into(),
        resolve(base, &e.href),
        e.hash.map(|h| format!("sha256={h}")).unwrap_or_default(),
        e.rp.into(),
        e.yanked.map(|y| format!("yanked {y}")).unwrap_or_default(),
        format!("{} {}", e.meta.0, e.meta.1.map(|h| format!("sha256={h}")).unwrap_or_default()),
    )
}

fn row(ai: &ArtifactInfo) -> Row {
    (
        ai.name.to_string(),
        ai.url.to_string(),
        ai.hash.as_ref().map(|h| h.to_string()).unwrap_or_default(),
        ai.requires_python.clone().unwrap_or_default(),
        if ai.yanked.yanked { format!("yanked {}", ai.yanked.reason.clone().unwrap_or_default()) } else { String::new() },
        format!("{} {}", ai.dist_info_metadata.available, ai.dist_info_metadata.hash.as_ref().map(|h| h.to_string()).unwrap_or_default()),
    )
}

/// One index's behaviour for the project.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Site {
    Missing,
    Files(&'static [&'static str]),
    /// redirected to another directory, same files
    Moved(&'static [&'static str]),
    /// page without Content-Type
    Untyped(&'static [&'static str]),
    Charset(&'static [&'static str]),
    Failing(u16),
    Json,
    Version2,
    Version19(&'static [&'static str]),
}

const F1: &[&str] = &["foo-bar-1.0.tar.gz", "Foo.Bar-2.0rc1.zip", "foo_bar-1.0-py3-none-any.whl"];
const F2: &[&str] = &["foo_bar-1.0.0-py2-none-any.whl", "foo-bar-2.0.zip", "foo-9.0.zip", "foo_bar_baz-9.1-py3-none-any.whl", "junk"];
const F3: &[&str] = &["foo--bar-1!0.1.zip", "foo_bar-2.0+local.1-py3-none-any.whl", "foo_bar-2.0-py3-none-any.whl", "foo_bar-2.0-1-py3-none-any.whl"];

fn sites(full: bool) -> Vec<Site> {
    use Site::*;
    let mut v = vec![Missing, Files(&[]), Files(F1), Files(F2), Files(F3), Moved(F1), Moved(F3), Failing(500), Failing(403), Failing(429), Json, Version2, Charset(F1)];
    if full {
        v.extend([Untyped(F2), Failing(400), Failing(401), Failing(503), Version19(F2), Untyped(F3), Charset(F3)]);
    }
    v
}

impl Site {
    fn files(&self) -> Option<&'static [&'static str]> {
        match self {
            Site::Missing => Some(&[]),
            Site::Files(f) | Site::Moved(f) | Site::Untyped(f) | Site::Charset(f) | Site::Version19(f) => Some(f),
            _ => None,
        }
    }
    fn serve(self, req: &Req, etag: bool) -> Resp {
        let page = |f: &[&str], v: &str| {
            let mut s = format!("<html><head><meta name='pypi:repository-version' content='{v}'></head><body>");
            for x in f {
                s += &format!("<a href=\"{x}\">{x}</a><br>");
            }
            s
        };
        let moved = req.path == "/elsewhere/deep/x/";
        if !moved && req.path != "/simple/foo-bar/" {
            return Resp::new(404, "wrong path");
        }
        let typed = |b: String, t: &str| {
            let mut r = Resp::new(200, b.clone()).h("Content-Type", t);
            if etag {
                let tag = format!("\"{:x}\"", fxhash(b.as_bytes()));
                if req.header("if-none-match") == Some(&tag) {
                    return Resp::new(304, "").h("ETag", tag);
                }
                r = r.h("ETag", tag).h("Cache-Control", "max-age=600");
            }
            r
        };
        match self {
            Site::Missing => Resp::new(404, page(F1, "1.0")).h("Content-Type", "text/html"),
            Site::Files(f) => typed(page(f, "1.0"), "text/html"),
            Site::Moved(f) if moved => typed(page(f, "1.0"), "text/html"),
            Site::Moved(_) => Resp::new(301, "").h("Location", "/elsewhere/deep/x/"),
            Site::Untyped(f) => Resp::new(200, page(f, "1.0")),
            Site::Charset(f) => typed(page(f, "1.1"), "Text/HTML; charset=UTF-8"),
            Site::Failing(s) => Resp::new(s, page(F1, "1.0")).h("Content-Type", "text/html"),
            Site::Json => typed("{}".into(), "application/vnd.pypi.simple.v1+json"),
            Site::Version2 => typed(page(F1, "2.0"), "text/html"),
            Site::Version19(f) => typed(page(f, "1.9"), "text/html"),
        }
    }
    fn prefix(&self) -> &'static str {
        match self {
            Site::Moved(_) => "/elsewhere/deep/x/",
            _ => "/simple/foo-bar/",
        }
    }
}

fn fxhash(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, c| (h ^ *c as u64).wrapping_mul(0x100000001b3))
}

/// What the project's files are, by their version (in its normal form), ours by hand.
fn version_of(file: &str) -> Option<&'static str> {
    Some(match file {
        "foo-bar-1.0.tar.gz" | "foo_bar-1.0-py3-none-any.whl" | "foo_bar-1.0.0-py2-none-any.whl" => "1.0",
        "Foo.Bar-2.0rc1.zip" => "2.0rc1",
        "foo-bar-2.0.zip" | "foo_bar-2.0-py3-none-any.whl" | "foo_bar-2.0-1-py3-none-any.whl" => "2.0",
        "foo_bar-2.0+local.1-py3-none-any.whl" => "2.0+local.1",
        "foo--bar-1!0.1.zip" => "1!0.1",
        _ => return None,
    })
}
const ORDER: [&str; 5] = ["1!0.1", "2.0+local.1", "2.0", "2.0rc1", "1.0"];

#[derive(Clone, Debug)]
enum Case {
    /// all pages starting with this link, on this page url and base
    Page { first: usize, page: usize, base: usize },
    Db { first: Site, name: &'static str },
}

fn check_pages(ls: &[Link], seqs: &mut dyn FnMut(&mut dyn FnMut(&[usize])), page: &str, base: usize, rep: &mut Rep, key: &str) {
    let (btext, b) = bases()[base];
    let eff = match b {
        None => page.to_string(),
        Some(b) => resolve(page, b),
    };
    let url = Url::parse(page).unwrap();
    let rows: Vec<Vec<Row>> = ls.iter().map(|l| l.exp.iter().map(|e| expected(&eff, e)).collect()).collect();
    seqs(&mut |seq: &[usize]| {
        for (wi, (a, m, sep, z)) in WRAPS.iter().enumerate() {
            let mut text = format!("{a}{btext}{m}");
            for (i, n) in seq.iter().enumerate() {
                if i > 0 {
                    text += sep;
                }
                text += &ls[*n].html;
            }
            text += z;
            rep.evaluations += 1;
            rep.traces += 1;
            rep.transitions += seq.len() as u64;
            let want: BTreeSet<&Row> = seq.iter().flat_map(|n| &rows[*n]).collect();
            let got = guard(|| parse_html(&url, "text/html", text.as_bytes()).map_err(|e| format!("{e:#}")));
            let got = match got {
                Ok(Ok(pi)) => pi,
                x => {
                    rep.violation(format!("{key} w{wi} {seq:?}"), format!("page {text:?}: {x:?}"));
                    continue;
                }
            };
            let got: BTreeSet<Row> = got.artifacts.iter().map(row).collect();
            if got.iter().collect::<BTreeSet<_>>() != want {
                rep.violation(format!("{key} w{wi} {seq:?}"), format!("at {page}, {text:?} read as {got:?}, should be {want:?}"));
            }
            rep.outcome(if want.is_empty() { "no artifact" } else if want.len() < seq.len() { "some skipped" } else { "all read" });
        }
    });
}

pub fn p18(mut ctx: Ctx) -> i32 {
    let ls = links();
    let depth = ctx.pick(2, 3);
    let full = ctx.thorough();
    let mut cases = vec![];
    for page in 0..PAGES.len() {
        for base in 0..bases().len() {
            for first in 0..ls.len() {
                cases.push(Case::Page { first, page, base });
            }
        }
    }
    for s in sites(full) {
        for name in ["foo-bar", "Foo__Bar"] {
            cases.push(Case::Db { first: s, name });
        }
    }
    ctx.run_cases(&cases, |c| format!("{c:?}"), |c, rep, dir| {
        let key = format!("{c:?}");
        rep.states += 1;
        match c {
            Case::Page { first, page, base } => {
                // three links deep only with the plain page
                let depth = if *page == 0 || depth < 3 { depth } else { 2 };
                rep.case(&key, true);
                let n = ls.len();
                let mut seqs = |f: &mut dyn FnMut(&[usize])| {
                    f(&[*first]);
                    for b in 0..n {
                        f(&[*first, b]);
                        if depth > 2 {
                            for c in 0..n {
                                f(&[*first, b, c]);
                            }
                        }
                    }
                };
                check_pages(&ls, &mut seqs, PAGES[*page], *base, rep, &key);
            }
            Case::Db { first, name } => {
                for second in sites(full) {
                    for third in std::iter::once(None).chain(sites(full).into_iter().map(Some)) {
                        let key = format!("{key} {second:?} {third:?}");
                        rep.case(&key, true);
                        if let Err(m) = db(*first, second, third, name, dir, rep) {
                            rep.violation(key, m);
                        }
                        std::fs::remove_dir_all(dir.join("c")).ok();
                    }
                }
            }
        }
        rep.sample(json!({"case": key}));
    });
    finish(ctx, Level {
        level: "model_checking",
        rule: "every page of up to the bound of links over the alphabet (reference forms, names, attributes, malformed and hidden links) x base elements x page addresses x page layouts through the real reader, compared as sets with the hand-resolved list; every pair of index behaviours x a later behaviour of the first (revalidation by a new database on the same cache) through the real package database over loopback HTTP; states = page starts and index pairs, transitions = links; distinct = distinct cases",
        assumptions: &["how a page is laid out beyond the six layouts is left to html5ever", "a base element after the first link, garbled hashes and legacy #egg= names are not judged"],
    })
}

fn db(a: Site, b: Site, later: Option<Site>, name: &str, dir: &Path, rep: &mut Rep) -> std::result::Result<(), String> {
    thread_local! {
        static O: (Origin, Origin) = (Origin::start(), Origin::start());
    }
    O.with(|(oa, ob)| {
        let cache = dir.join("c");
        let forest = crate::env::EnvForest::new(&cache.join("env")).unwrap();
        let builds = crate::kvstore::KVDirStore::new(&cache.join("builds")).unwrap();
        let urls = [oa, ob].map(|o| Url::parse(&o.url("/simple/")).unwrap());
        let name: PackageName = name.parse().unwrap();
        sys::NO_SLEEP.store(1, std::sync::atomic::Ordering::Relaxed);
        for (round, first) in [Some(a), later].into_iter().enumerate() {
            let Some(first) = first else { continue };
            oa.set(move |r| first.serve(r, true));
            ob.set(move |r| b.serve(r, false));
            let pdb = crate::package_db::PackageDB::new(&urls, &cache.join("cache"), &forest, &builds).map_err(|e| format!("{e:#}"))?;
            let got = pdb.available_artifacts(&name);
            rep.transitions += (oa.take_log().len() + ob.take_log().len()) as u64;
            rep.traces += 1;
            let (fa, fb) = (first.files(), b.files());
            let (Some(fa), Some(fb)) = (fa, fb) else {
                rep.outcome("error");
                if got.is_ok() {
                    return Err(format!("round {round}: an index that cannot be read ({first:?}, {b:?}) is silently left out"));
                }
                continue;
            };
            let got = got.map_err(|e| format!("round {round}: {e:#}"))?;
            rep.outcome(if got.is_empty() { "empty" } else { "merged" });
            let mut want: BTreeMap<&str, BTreeSet<String>> = Default::default();
            for (o, s, f) in [(oa, first, fa), (ob, b, fb)] {
                for x in f {
                    if let Some(v) = version_of(x) {
                        want.entry(v).or_default().insert(o.url(&format!("{}{x}", s.prefix())));
                    }
                }
            }
            let order: Vec<&str> = ORDER.into_iter().filter(|v| want.contains_key(v)).collect();
            let gorder: Vec<String> = got.keys().map(|v| if v.to_string() == "1.0.0" { "1.0".into() } else { v.to_string() }).collect();
            if order != gorder {
                return Err(format!("round {round}: versions {gorder:?}, should be {order:?}"));
            }
            for v in order {
                let ver: Version = v.parse().unwrap();
                let list = pdb.artifacts_for_version(&name, &ver).map_err(|e| format!("{e:#}"))?;
                let g: BTreeSet<String> = list.iter().map(|ai| ai.url.to_string()).collect();
                if g != want[v] || list.len() != g.len() {
                    return Err(format!("round {round}: files of {v} are {g:?} ({} of them), should be {:?}", list.len(), want[v]));
                }
                if list.iter().any(|ai| ai.name.version() != &ver || ai.name.distribution() != &name) {
                    return Err(format!("round {round}: {v} lists files of other versions or projects"));
                }
            }
            if !pdb.artifacts_for_version(&name, &"7.7".parse().unwrap()).map_err(|e| format!("{e:#}"))?.is_empty() {
                return Err("a version nobody has is reported".into());
            }
            // one invocation sees one state of the index, whatever the index does meanwhile, and under every spelling
            oa.set(|_| Resp::new(500, ""));
            let again: PackageName = "FOO_bar".parse().unwrap();
            let n = pdb.available_artifacts(&again).map_err(|e| format!("asked again: {e:#}"))?.len();
            if n != got.len() || !oa.take_log().is_empty() {
                return Err(format!("asked again: {n} versions instead of {}", got.len()));
            }
        }
        Ok(())
    })
}
