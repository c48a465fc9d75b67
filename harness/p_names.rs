//! P17: names of packages, extras and artifacts. P19: metadata files.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};

use serde_json::json;

use super::core::*;
use super::p_vocab::{parse_ref, V};
use crate::prelude::*;
use crate::vocab::verif::RFC822ish;

////////////////////////////////////////////////////////////////
// Reference: PEP 508 names, PEP 503 normalization, file names

pub fn name_ok(s: &str) -> bool {
    let an = |c: char| c.is_ascii_alphanumeric();
    !s.is_empty()
        && s.chars().all(|c| an(c) || "-_.".contains(c))
        && an(s.chars().next().unwrap())
        && an(s.chars().last().unwrap())
}

pub fn name_norm(s: &str) -> String {
    let mut out = String::new();
    let mut sep = false;
    for c in s.chars() {
        if "-_.".contains(c) {
            sep = true;
        } else {
            if sep {
                out.push('-');
            }
            sep = false;
            out.push(c.to_ascii_lowercase());
        }
    }
    out
}

#[derive(Clone, Debug, PartialEq)]
enum File {
    Sdist { name: String, version: V, zip: bool },
    Bin { name: String, version: V, build: Option<(Option<u128>, String)>, tags: Vec<Vec<String>> },
}

enum Read<T> {
    Yes(T),
    No,
    /// the specifications leave it open
    Open,
}

fn file_ref(text: &str) -> Read<File> {
    let ver = |s: &str| parse_ref(s).filter(|_| !s.contains(char::is_whitespace));
    for (suffix, ntags) in [(".whl", 3usize), (".pybi", 1)] {
        let Some(stem) = text.strip_suffix(suffix) else { continue };
        let p: Vec<&str> = stem.split('-').collect();
        let build = match p.len() {
            n if n == ntags + 2 => None,
            n if n == ntags + 3 => Some(p[2]),
            _ => return Read::No,
        };
        let tags: Vec<Vec<String>> =
            p[p.len() - ntags..].iter().map(|t| t.split('.').map(|s| s.to_string()).collect()).collect();
        if text.chars().any(|c| !(c.is_ascii_alphanumeric() || "_.+!-".contains(c))) || !name_ok(p[0]) || build == Some("") {
            return Read::No;
        }
        let Some((version, big)) = ver(p[1]) else { return Read::No };
        // neither specification says what an empty tag, or one of other characters, means
        if big || tags.iter().flatten().any(|t| t.is_empty() || t.contains(['!', '+'])) {
            return Read::Open;
        }
        let build = build.map(|b| {
            let d: String = b.chars().take_while(|c| c.is_ascii_digit()).collect();
            let rest = b[d.len()..].to_string();
            (if d.is_empty() { None } else { Some(d.parse().unwrap_or(u128::MAX)) }, rest)
        });
        return Read::Yes(File::Bin { name: p[0].into(), version, build, tags });
    }
    let (stem, zip) = match (text.strip_suffix(".tar.gz"), text.strip_suffix(".zip")) {
        (Some(s), _) => (s, false),
        (_, Some(s)) => (s, true),
        _ => return Read::No,
    };
    let Some((n, v)) = stem.rsplit_once('-') else { return Read::No };
    match (name_ok(n), ver(v)) {
        (true, Some((_, true))) => Read::Open,
        (true, Some((version, _))) => Read::Yes(File::Sdist { name: n.into(), version, zip }),
        // a version with surrounding whitespace is still a version elsewhere
        (true, None) if parse_ref(v.trim()).is_some() => Read::Open,
        _ => Read::No,
    }
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn check_file(text: &str, rep: &mut Rep, key: &str) {
    rep.traces += 1;
    let want = file_ref(text);
    rep.case(text, !matches!(want, Read::No));
    let got = guard(|| ArtifactName::try_from(text).map_err(|e| e.to_string()));
    let got = match got {
        Err(p) => return rep.violation(key, format!("{text:?}: {p}")),
        Ok(g) => g,
    };
    let (want, got) = match (want, got) {
        (Read::No, Ok(n)) => return rep.violation(key, format!("{text:?} is accepted as {n:?}")),
        (Read::Yes(w), Err(e)) => {
            // a build number nobody can represent may be refused
            if matches!(&w, File::Bin { build: Some((Some(n), _)), .. } if *n > u64::MAX as u128) {
                return rep.outcome("refused for its size");
            }
            return rep.violation(key, format!("{text:?} is refused: {e}, but is {w:?}"));
        }
        (Read::Open, Ok(n)) => (None, n),
        (Read::Yes(w), Ok(n)) => (Some(w), n),
        (_, Err(_)) => return rep.outcome("refused"),
    };
    // printing gives an equivalent name back
    let printed = got.to_string();
    match guard(|| ArtifactName::try_from(printed.as_str()).map_err(|e| e.to_string())) {
        Ok(Ok(again))
            if again == got
                && again.distribution().as_given() == got.distribution().as_given()
                && again.cmp(&got) == std::cmp::Ordering::Equal => {}
        x => return rep.violation(key, format!("{text:?} prints as {printed:?}, which reads back as {x:?}")),
    }
    // what it prints names the same build and tags
    if let (Read::Yes(a), Read::Yes(b)) = (file_ref(text), file_ref(&printed)) {
        let same = match (&a, &b) {
            (File::Sdist { name: n, version: v, zip: z }, File::Sdist { name: m, version: w, zip: y }) => {
                n == m && v.vcmp(w).is_eq() && z == y
            }
            (File::Bin { name: n, version: v, build: x, tags: s }, File::Bin { name: m, version: w, build: y, tags: t }) => {
                n == m && v.vcmp(w).is_eq() && x == y && s == t
            }
            _ => false,
        };
        if !same {
            return rep.violation(key, format!("{text:?} prints as {printed:?}, another file"));
        }
    }
    let Some(want) = want else { return rep.outcome("not judged") };
    let version_is = |v: &V, got: &Version| {
        guard(|| Version::try_from(v.text().as_str()).map_or(false, |w| w == *got)).unwrap_or(false)
    };
    let build_is = |b: &Option<(Option<u128>, String)>, num: Option<u128>, name: &str| match b {
        None => num.is_none() && name.is_empty(),
        Some((n, s)) => num == *n && name == s,
    };
    let ok = match (&want, &got) {
        (File::Sdist { name, version, zip }, ArtifactName::Sdist(s)) => {
            rep.outcome("source archive");
            s.distribution.as_given() == name
                && version_is(version, &s.version)
                && (s.format == SdistFormat::Zip) == *zip
        }
        (File::Bin { name, version, build, tags }, ArtifactName::Wheel(w)) => {
            rep.outcome("wheel");
            let mut all = BTreeSet::new();
            if tags.len() == 3 {
                for a in &tags[0] {
                    for b in &tags[1] {
                        for c in &tags[2] {
                            all.insert(format!("{a}-{b}-{c}"));
                        }
                    }
                }
            }
            w.distribution.as_given() == name
                && version_is(version, &w.version)
                && build_is(build, w.build_number.map(|n| n as u128), &w.build_name)
                && vec![w.py_tags.clone(), w.abi_tags.clone(), w.arch_tags.clone()] == *tags
                && w.all_tags().into_iter().collect::<BTreeSet<_>>() == all
                && got.split_multiplatform_pybis() == vec![got.clone()]
        }
        (File::Bin { name, version, build, tags }, ArtifactName::Pybi(w)) => {
            rep.outcome("interpreter archive");
            let mut split = vec![];
            for t in &tags[0] {
                match t.strip_suffix("_universal2").filter(|_| t.starts_with("macosx_")) {
                    Some(p) => split.extend([format!("{p}_arm64"), format!("{p}_x86_64")]),
                    None => split.push(t.clone()),
                }
            }
            let mut got_split = vec![];
            for n in got.split_multiplatform_pybis() {
                let ArtifactName::Pybi(p) = &n else {
                    return rep.violation(key, format!("{text:?} splits into {n}"));
                };
                if p.distribution != w.distribution || p.version != w.version || p.build_number != w.build_number || p.build_name != w.build_name || p.arch_tags.len() != 1 {
                    return rep.violation(key, format!("{text:?} splits into {n}"));
                }
                got_split.push(p.arch_tags[0].clone());
            }
            w.distribution.as_given() == name
                && version_is(version, &w.version)
                && build_is(build, w.build_number.map(|n| n as u128), &w.build_name)
                && vec![w.arch_tags.clone()] == *tags
                && w.all_tags().into_iter().collect::<BTreeSet<_>>() == tags[0].iter().cloned().collect()
                && got_split == split
        }
        _ => false,
    };
    if !ok {
        rep.violation(key, format!("{text:?} reads as {got:?} instead of {want:?}"));
    }
    match guard(|| serde_json::to_value(&got)) {
        Ok(Ok(v)) if v == json!(printed) => (),
        x => rep.violation(key, format!("{text:?} serializes as {x:?}")),
    }
}

enum C17 {
    Names(usize, usize),
    Pairs(usize),
    Chars,
    Files(usize, usize),
    Builds,
}

const ALPHA: &[char] = &['a', 'B', '0', '-', '_', '.', ' ', 'é'];
const PIECE: &[&str] = &["foo", "A.b_c", "1.0", "2!1.0a1+x.y", "3b", "007", "py2.py3", "", "x y"];
const SUFFIX: &[&str] = &[".whl", ".pybi", ".tar.gz", ".zip", ".tgz", "", ".WHL", ".whl.zip"];

fn strings(alpha: &[char], len: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut level = vec![String::new()];
    for _ in 0..len {
        level = level.iter().flat_map(|s| alpha.iter().map(move |c| format!("{s}{c}"))).collect();
        out.extend(level.iter().cloned());
    }
    out
}

fn check_name(s: &str, rep: &mut Rep, key: &str) {
    rep.traces += 1;
    let ok = name_ok(s);
    rep.case(s, ok);
    let p = guard(|| PackageName::try_from(s).map_err(|e| e.to_string()));
    let e = guard(|| Extra::try_from(s).map_err(|e| e.to_string()));
    let (p, e) = match (p, e) {
        (Ok(p), Ok(e)) => (p, e),
        (p, e) => return rep.violation(key, format!("{s:?}: {:?} {:?}", p.is_ok(), e.is_ok())),
    };
    if p.is_ok() != ok || e.is_ok() != ok {
        return rep.violation(key, format!("{s:?} should be {}: as a package {p:?}, as an extra {e:?}", if ok { "a name" } else { "refused" }));
    }
    let (Ok(p), Ok(e)) = (p, e) else { return rep.outcome("refused") };
    rep.outcome("accepted");
    if p.as_given() != s || p.normalized() != name_norm(s) || e.as_given() != s || e.normalized() != name_norm(s) {
        return rep.violation(key, format!("{s:?} normalizes to {:?} / {:?}", p.normalized(), e.normalized()));
    }
    let j: std::result::Result<(PackageName, Extra), _> =
        serde_json::to_string(&(&p, &e)).and_then(|t| serde_json::from_str(&t));
    match j {
        Ok((q, f)) if q == p && f == e && q.as_given() == s && f.as_given() == s => (),
        x => rep.violation(key, format!("{s:?} reads back from JSON as {x:?}")),
    }
}

pub fn p17(mut ctx: Ctx) -> i32 {
    ctx.hang_secs = 300;
    let len = ctx.pick(5usize, 6);
    let plen = ctx.pick(4usize, 5);
    let pieces = ctx.pick(5usize, 6);
    let pair_names: Vec<String> =
        strings(&['a', 'B', '-', '_', '.'], plen).into_iter().filter(|s| name_ok(s)).collect();
    let mut cases = vec![C17::Chars, C17::Builds];
    for a in 0..ALPHA.len() {
        for b in 0..ALPHA.len() {
            cases.push(C17::Names(a, b));
        }
    }
    for i in 0..16 {
        cases.push(C17::Pairs(i));
    }
    for a in 0..PIECE.len() {
        for b in 0..PIECE.len() {
            cases.push(C17::Files(a, b));
        }
    }
    let key = |c: &C17| match c {
        C17::Names(a, b) => format!("names {:?}...", format!("{}{}", ALPHA[*a], ALPHA[*b])),
        C17::Pairs(i) => format!("pairs of names, part {i}"),
        C17::Chars => "characters".into(),
        C17::Files(a, b) => format!("files {}-{}...", PIECE[*a], PIECE[*b]),
        C17::Builds => "build numbers".into(),
    };
    ctx.run_cases(&cases, key, |case, rep, _| {
        let key = key(case);
        rep.states += 1;
        match case {
            C17::Names(a, b) => {
                if (*a, *b) == (0, 0) {
                    check_name("", rep, &key);
                }
                if *a == *b {
                    check_name(&ALPHA[*a].to_string(), rep, &key);
                }
                for s in strings(ALPHA, len - 2) {
                    check_name(&format!("{}{}{s}", ALPHA[*a], ALPHA[*b]), rep, &key);
                    if rep.violations.len() > 3 {
                        return;
                    }
                }
            }
            C17::Pairs(part) => {
                let names: Vec<PackageName> = pair_names.iter().map(|s| s.as_str().try_into().unwrap()).collect();
                let extras: Vec<Extra> = pair_names.iter().map(|s| s.as_str().try_into().unwrap()).collect();
                for i in (0..names.len()).filter(|i| i % 16 == *part) {
                    rep.case(&pair_names[i], true);
                    for j in 0..names.len() {
                        rep.transitions += 1;
                        let (a, b) = (name_norm(&pair_names[i]), name_norm(&pair_names[j]));
                        let ok = (names[i] == names[j]) == (a == b)
                            && (extras[i] == extras[j]) == (a == b)
                            && names[i].cmp(&names[j]).is_eq() == (a == b)
                            && names[i].partial_cmp(&names[j]) == Some(names[i].cmp(&names[j]))
                            && names[i].cmp(&names[j]) == names[j].cmp(&names[i]).reverse()
                            && (a != b || (hash_of(&names[i]) == hash_of(&names[j]) && hash_of(&extras[i]) == hash_of(&extras[j])));
                        if !ok {
                            rep.violation(key.clone(), format!("{:?} and {:?} are {} names", pair_names[i], pair_names[j], if a == b { "the same" } else { "different" }));
                            return;
                        }
                    }
                    rep.outcome("pair rows");
                }
            }
            C17::Chars => {
                for c in (0u32..0x300).chain([0x212A, 0x17F, 0x2028, 0xFF41, 0x1F600]).filter_map(char::from_u32) {
                    for s in [format!("{c}"), format!("{c}a"), format!("a{c}"), format!("a{c}b")] {
                        check_name(&s, rep, &key);
                    }
                    for s in [
                        format!("f{c}o-1.0-py3-none-any.whl"), format!("foo-1{c}0-py3-none-any.whl"), format!("foo-1.0-1{c}-py3-none-any.whl"),
                        format!("foo-1.0-py{c}3-none-any.whl"), format!("foo-1.0-py3-none-any.whl{c}"), format!("{c}foo-1.0.zip"), format!("foo-1.0{c}.zip"),
                        format!("foo-1.0.tar{c}gz"), format!("fo{c}o-1.0.tar.gz"), format!("foo-1.0-a{c}b.pybi"), format!("foo-1.0.zip{c}"),
                    ] {
                        check_file(&s, rep, &key);
                    }
                }
            }
            C17::Files(a, b) => {
                let mut level = vec![vec![*a, *b]];
                if a == b {
                    for s in SUFFIX {
                        check_file(&format!("{}{s}", PIECE[*a]), rep, &key);
                    }
                }
                for n in 2..=6 {
                    for p in &level {
                        let stem = p.iter().map(|i| PIECE[*i]).collect::<Vec<_>>().join("-");
                        for s in SUFFIX {
                            if n == 6 && pieces < 6 && *s != ".whl" {
                                continue;
                            }
                            check_file(&format!("{stem}{s}"), rep, &key);
                        }
                        if rep.violations.len() > 3 {
                            return;
                        }
                    }
                    if n < 6 {
                        level = level
                            .iter()
                            .flat_map(|p| {
                                (0..PIECE.len()).map(move |i| {
                                    let mut p = p.clone();
                                    p.push(i);
                                    p
                                })
                            })
                            // quick: wheels with build tags only where name and version are right
                            .filter(|p| pieces == 6 || p.len() < 6 || (p[0] < 2 && (p[1] == 2 || p[1] == 3)))
                            .collect();
                    }
                }
                if (*a, *b) == (0, 2) {
                    rep.sample(json!({"files_like": "foo-1.0-3b-py2.py3-A.b_c-foo.whl", "pieces": 6}));
                }
            }
            C17::Builds => {
                let builds = ["", "0", "1", "2", "9", "10", "00", "01", "1a", "1b", "2a", "a", "b", "a1", "_", "4294967295", "4294967296", "20230101123456", "18446744073709551615", "18446744073709551616", "99999999999999999999999"];
                let mut sorted: Vec<(Option<(Option<u128>, String)>, ArtifactName)> = vec![];
                for b in builds {
                    let d = if b.is_empty() { String::new() } else { format!("-{b}") };
                    for text in [format!("foo-1.0{d}-py3-none-any.whl"), format!("foo-1.0{d}-linux_x86_64.pybi")] {
                        check_file(&text, rep, &key);
                        if let (Ok(Ok(n)), Read::Yes(File::Bin { build, .. })) = (guard(|| ArtifactName::try_from(text.as_str())), file_ref(&text)) {
                            sorted.push((build, n));
                        }
                    }
                }
                // "sorts as an empty tuple if unspecified, else as (number, name)"
                for (x, n) in &sorted {
                    for (y, m) in &sorted {
                        rep.transitions += 1;
                        let same_kind = n.inner_as::<WheelName>().is_some() == m.inner_as::<WheelName>().is_some();
                        let k = |b: &Option<(Option<u128>, String)>| b.clone().unwrap_or((None, String::new()));
                        if same_kind && n.cmp(m) != k(x).cmp(&k(y)) {
                            rep.violation(key.clone(), format!("{n} and {m} compare as {:?}", n.cmp(m)));
                        }
                    }
                }
                for tags in strings(&['1', '2', '3', '4', '5'], 4) {
                    if tags.is_empty() {
                        continue;
                    }
                    let t: Vec<&str> = tags
                        .chars()
                        .map(|c| ["macosx_10_15_universal2", "macosx_11_0_arm64", "linux_universal2", "win_amd64", "macosx_universal2"][c as usize - '1' as usize])
                        .collect();
                    check_file(&format!("foo-1.0-{}.pybi", t.join(".")), rep, &key);
                    check_file(&format!("foo-1.0-py2.py3-none-{}.whl", t.join(".")), rep, &key);
                }
            }
        }
    });
    finish(ctx, Level {
        level: "model_checking",
        rule: "every name of up to the length over letters, digits, separators and foreign characters, all pairs of the valid ones (==, ordering, hash), every Unicode scalar up to U+02FF at every kind of position; every file name of up to 6 dash-separated pieces of an alphabet with every suffix; build numbers around the integer limits, all pairs; all tag lists of up to 4; against a reference by hand; printing and reading back; states = cases, transitions = pairs compared; distinct = distinct accepted texts",
        assumptions: &["empty tags and tags with ! or + are not judged", "source archives are split at the last dash"],
    })
}

////////////////////////////////////////////////////////////////
// P19

type RefFields = BTreeMap<String, Vec<String>>;

/// None: refused; Some(None): not judged
fn mail_ref(text: &str) -> Option<Option<(RefFields, Option<String>)>> {
    // lines with their endings
    let b = text.as_bytes();
    let mut lines: Vec<(usize, usize, usize)> = vec![]; // start, end of content, end of line
    let mut a = 0;
    let mut i = 0;
    while i < b.len() {
        let e = match b[i] {
            b'\r' if b.get(i + 1) == Some(&b'\n') => 2,
            b'\r' | b'\n' => 1,
            _ => {
                i += 1;
                continue;
            }
        };
        lines.push((a, i, i + e));
        i += e;
        a = i;
    }
    lines.push((a, b.len(), b.len()));
    if lines[0].0 == lines[0].1 && lines.len() > 1 {
        // begins with an empty line: nothing but a body, if anything
        return Some(None);
    }
    let mut fields: Vec<(String, usize, usize)> = vec![];
    let mut body = None;
    for (n, (s, e, _)) in lines.iter().enumerate() {
        let line = &text[*s..*e];
        if line.is_empty() {
            if n + 1 < lines.len() {
                body = Some(text[lines[n].2..].to_string());
            }
            break;
        }
        if line.starts_with([' ', '\t']) {
            match fields.last_mut() {
                None => return None,
                Some(f) => f.2 = *e,
            }
            continue;
        }
        let Some(colon) = line.find(':') else { return None };
        let name = &line[..colon];
        if name.is_empty() || !name.bytes().all(|c| (0x21..=0x7e).contains(&c)) {
            return None;
        }
        let rest = &line[colon + 1..];
        let skip = rest.len() - rest.trim_start_matches([' ', '\t']).len();
        fields.push((name.to_ascii_lowercase(), s + colon + 1 + skip, *e));
    }
    let mut m = RefFields::new();
    for (n, a, e) in fields {
        m.entry(n).or_default().push(text[a..e].to_string());
    }
    Some(Some((m, body)))
}

fn check_mail(text: &str, rep: &mut Rep, key: &str) {
    rep.traces += 1;
    let want = mail_ref(text);
    rep.case(text, want.is_some());
    let got = match guard(|| RFC822ish::parse(text).map_err(|e| e.to_string())) {
        Err(p) => return rep.violation(key, format!("{text:?}: {p}")),
        Ok(g) => g.map(|r| (r.fields.into_iter().collect::<RefFields>(), r.body)),
    };
    match (want, got) {
        (Some(None), _) => rep.outcome("not judged"),
        (None, Err(_)) => rep.outcome("refused"),
        (None, Ok(g)) => rep.violation(key, format!("{text:?} is accepted as {g:?}")),
        (Some(Some(w)), Err(e)) => rep.violation(key, format!("{text:?} is refused: {e}; it has {w:?}")),
        (Some(Some(w)), Ok(g)) => {
            rep.outcome(if w.1.is_some() { "accepted with body" } else { "accepted" });
            if w != g {
                rep.violation(key, format!("{text:?} reads as {g:?} instead of {w:?}"));
            }
        }
    }
}

const MTOK: &[&str] = &["Ab", "c", ":", " ", "\t", "\n", "\r\n", "\r", "é"];

enum C19 {
    Mail(usize, usize),
    Wheel(usize),
    Pybi(usize),
    Body(usize),
}

/// (text of the field lines, good?, value)
type Choice = (&'static [&'static str], bool);

const MVER: &[Choice] = &[(&["2.1"], true), (&["1.0"], true), (&["2.99"], true), (&["3.0"], false), (&["10.1"], false), (&["x"], false), (&[], false), (&["2.1", "2.1"], false)];
const NAME: &[Choice] = &[(&["Foo.bar"], true), (&[], false), (&["a", "a"], false), (&["-"], false), (&[""], false)];
const VERS: &[Choice] = &[(&["1.0a1"], true), (&[], false), (&["1", "2"], false), (&["one"], false)];
const RPY: &[Choice] = &[(&[], true), (&[">=3.6"], true), (&["!=3.0.*, >=2.7"], true), (&["python3"], false), (&[">=3", ">=3"], false)];
const RDIST: &[Choice] = &[(&[], true), (&["x"], true), (&["x", "y (>=1) ; extra == 'z'", "x"], true), (&["a[b,c]~=1.2"], true), (&["x", "!"], false)];
const PEX: &[Choice] = &[(&[], true), (&["z"], true), (&["z", "Y_w", "z"], true), (&["z z"], false)];

pub fn p19(mut ctx: Ctx) -> i32 {
    ctx.hang_secs = 300;
    let depth = ctx.pick(7usize, 8);
    let mut cases = vec![];
    for a in 0..MTOK.len() {
        for b in 0..MTOK.len() {
            cases.push(C19::Mail(a, b));
        }
    }
    for i in 0..MVER.len() {
        cases.push(C19::Wheel(i));
        cases.push(C19::Pybi(i));
        cases.push(C19::Body(i));
    }
    let key = |c: &C19| match c {
        C19::Mail(a, b) => format!("text {:?}...", format!("{}{}", MTOK[*a], MTOK[*b])),
        C19::Wheel(i) => format!("package metadata, version {:?}", MVER[*i].0),
        C19::Pybi(i) => format!("interpreter metadata, version {:?}", MVER[*i].0),
        C19::Body(i) => format!("bodies {i}"),
    };
    ctx.run_cases(&cases, key, |case, rep, _| {
        let key = key(case);
        rep.states += 1;
        match case {
            C19::Mail(a, b) => {
                let mut level = vec![format!("{}{}", MTOK[*a], MTOK[*b])];
                if a == b {
                    level.push(MTOK[*a].to_string());
                    level.push(String::new());
                }
                for d in 2..=depth {
                    let deepest = d == depth;
                    for t in &level {
                        check_mail(t, rep, &key);
                        if rep.violations.len() > 3 {
                            return;
                        }
                    }
                    if !deepest {
                        level = level
                            .iter()
                            .filter(|t| t.len() > MTOK[*a].len())
                            // what comes after a refused first line cannot matter much: keep short ones only
                            .filter(|t| !t.starts_with(['\r', '\n']))
                            .filter(|t| d < 5 || mail_ref(t).is_some() || mail_ref(&format!("{t}:")).is_some())
                            .flat_map(|s| MTOK.iter().map(move |t| format!("{s}{t}")))
                            .collect();
                    }
                }
            }
            C19::Wheel(m) => {
                for (ni, n) in NAME.iter().enumerate() {
                    for v in VERS {
                        for p in RPY {
                            for d in RDIST {
                                for x in PEX {
                                    let parts = [("Metadata-Version", &MVER[*m]), ("Name", n), ("Version", v), ("Requires-Python", p), ("Requires-Dist", d), ("Provides-Extra", x)];
                                    for variant in 0..8usize {
                                        if variant > 1 && ni > 0 {
                                            break;
                                        }
                                        wheel_case(&parts, variant, rep, &key);
                                        if rep.violations.len() > 3 {
                                            return;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                rep.sample(json!({"metadata_version": MVER[*m].0, "variants": "field order, spelling of field names, line endings, folding, body"}));
            }
            C19::Pybi(m) => {
                const VARS: &[Choice] = &[(&[r#"{"os_name": "posix", "a": "b\"c"}"#], true), (&["{}"], true), (&[], false), (&["{", "{}"], false), (&["{\"a\": 1}"], false), (&["[]"], false), (&["{}", "{}"], false)];
                const TAGS: &[Choice] = &[(&[], true), (&["cp311-cp311-linux_x86_64"], true), (&["b-b-b", "a-a-a", "b-b-b"], true)];
                const PATHS: &[Choice] = &[(&[r#"{"data": ".", "scripts": "bin", "purelib": "lib/./x/../y"}"#], true), (&["{}"], true), (&[r#"{"data": "../x"}"#], false), (&[r#"{"data": "/x"}"#], false), (&[r#"{"data": "a/../../x"}"#], false), (&[], false), (&["{"], false), (&[r#"{"data": "c:x"}"#], false)];
                for n in NAME {
                    for v in VERS {
                        for e in VARS {
                            for t in TAGS {
                                for p in PATHS {
                                    let parts = [("Metadata-Version", &MVER[*m]), ("Name", n), ("Version", v), ("Pybi-Environment-Marker-Variables", e), ("Pybi-Wheel-Tag", t), ("Pybi-Paths", p)];
                                    for variant in [0usize, 3] {
                                        pybi_case(&parts, variant, rep, &key);
                                        if rep.violations.len() > 3 {
                                            return;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            C19::Body(i) => {
                // assembled files give back what went in
                let vals = ["", "x", "x: y", "a b\tc", "é \u{2028}", "\u{0}", "x;y"];
                let folds: [&[&str]; 4] = [&[], &[" y"], &["\tz", "   "], &["        |", " : "]];
                let bodies = [None, Some(""), Some("\n"), Some("Name: fake\n\nx"), Some(" folded\r\n\r\n\r"), Some("é\u{0}")];
                let le = ["\n", "\r\n", "\r"][i % 3];
                for v in vals {
                    for w in vals {
                        for f in folds {
                            for g in folds {
                                for body in bodies {
                                    for names in [["A", "B"], ["A", "a"], ["X-Y_.!~", "Name"]] {
                                        for end in [false, true] {
                                            let mut text = String::new();
                                            let mut want = RefFields::new();
                                            for (k, (v, f)) in [(v, f), (w, g)].into_iter().enumerate() {
                                                let mut value = v.to_string();
                                                for l in f {
                                                    value += le;
                                                    value += l;
                                                }
                                                text += &format!("{}:{}{value}", names[k], ["", " ", "\t ", "  "][(i + k) % 4]);
                                                if k == 0 || end || body.is_some() {
                                                    text += le;
                                                }
                                                want.entry(names[k].to_ascii_lowercase()).or_default().push(value);
                                            }
                                            if let Some(b) = body {
                                                text += le;
                                                text += b;
                                            }
                                            if le == "\r" && body.map_or(false, |b| b.starts_with('\n')) {
                                                // "\r\r\n" ends one line, then is another line ending
                                                continue;
                                            }
                                            rep.transitions += 1;
                                            match mail_ref(&text) {
                                                Some(Some(r)) if r == (want, body.map(|b| b.to_string())) => (),
                                                x => panic!("harness: {text:?} {x:?}"),
                                            }
                                            check_mail(&text, rep, &key);
                                            if rep.violations.len() > 3 {
                                                return;
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    finish(ctx, Level {
        level: "model_checking",
        rule: "every text of up to the bound of tokens (name, colon, blanks, each line ending), files assembled from every pair of values, foldings, line endings and bodies, and every combination of right, missing, duplicated and malformed values of the metadata fields in several layouts; against a reference reader by hand (the rules of Python's email.parser, which the code names as its model, minus its leniency); states = cases, transitions = assembled files; distinct = distinct readable texts",
        assumptions: &["texts that begin with an empty line are not judged"],
    })
}

fn layout(parts: &[(&str, &Choice)], variant: usize) -> Vec<u8> {
    let le = ["\n", "\n", "\r\n", "\n", "\r", "\n", "\r\n", "\n"][variant];
    let mut lines: Vec<(String, &str)> = vec![];
    for (n, c) in parts {
        for v in c.0 {
            let n = match variant {
                1 => n.to_uppercase(),
                2 => n.to_lowercase(),
                _ => n.to_string(),
            };
            lines.push((n, v));
        }
    }
    if variant == 3 || variant == 6 {
        lines.reverse();
    }
    if variant == 5 {
        let n = lines.len() / 2;
        lines.rotate_left(n);
    }
    let mut text = String::new();
    for (i, (n, v)) in lines.iter().enumerate() {
        text += n;
        text += if variant == 4 { ":" } else { ": " };
        text += v;
        text += le;
        if i == 0 && variant >= 3 {
            text += &format!("Classifier: a{le}  folded{le}\tName: x{le}Keywords:{le}");
        }
    }
    if variant != 1 && variant != 4 {
        text += le;
        text += "Name: other\nVersion: 9\nRequires-Python: <1\n\nbody";
    }
    let mut b = text.into_bytes();
    if variant == 7 {
        // mangled text in the body must not matter
        b.extend([0xff, 0xfe, 0x80]);
    }
    b
}

fn wheel_case(parts: &[(&str, &Choice)], variant: usize, rep: &mut Rep, key: &str) {
    let bytes = layout(parts, variant);
    rep.traces += 1;
    let good = parts.iter().all(|p| p.1 .1);
    let show = String::from_utf8_lossy(&bytes).to_string();
    rep.case(&show, good);
    let got = guard(|| WheelCoreMetadata::try_from(bytes.as_slice()).map_err(|e| e.to_string()));
    match got {
        Err(p) => rep.violation(key, format!("{show:?}: {p}")),
        Ok(Err(e)) if good => rep.violation(key, format!("{show:?} is refused: {e}")),
        Ok(Ok(_)) if !good => rep.violation(key, format!("{show:?} is accepted")),
        Ok(Err(_)) => rep.outcome("metadata refused"),
        Ok(Ok(m)) => {
            rep.outcome("metadata accepted");
            let rd: Vec<PackageRequirement> = ordered(parts, 4, variant).iter().map(|s| (*s).try_into().unwrap()).collect();
            let rp: Specifiers = parts[3].1 .0.first().map_or(Specifiers(vec![]), |s| (*s).try_into().unwrap());
            let ex: HashSet<Extra> = parts[5].1 .0.iter().map(|s| (*s).try_into().unwrap()).collect();
            if m.name.as_given() != parts[1].1 .0[0]
                || m.version != Version::try_from(parts[2].1 .0[0]).unwrap()
                || m.requires_dist != rd
                || m.requires_python != rp
                || m.extras != ex
            {
                rep.violation(key, format!("{show:?} reads as {m:?}"));
            }
        }
    }
}

fn ordered(parts: &[(&str, &Choice)], i: usize, variant: usize) -> Vec<&'static str> {
    let mut v = parts[i].1 .0.to_vec();
    if variant == 3 || variant == 6 {
        v.reverse();
    }
    if variant == 5 {
        // rotate the whole file, then pick
        let mut all: Vec<(usize, &str)> = vec![];
        for (k, p) in parts.iter().enumerate() {
            all.extend(p.1 .0.iter().map(|v| (k, *v)));
        }
        let n = all.len() / 2;
        all.rotate_left(n);
        v = all.into_iter().filter(|x| x.0 == i).map(|x| x.1).collect();
    }
    v
}

fn pybi_case(parts: &[(&str, &Choice)], variant: usize, rep: &mut Rep, key: &str) {
    let bytes = layout(parts, variant);
    rep.traces += 1;
    let good = parts.iter().all(|p| p.1 .1);
    let show = String::from_utf8_lossy(&bytes).to_string();
    rep.case(&show, good);
    let got = guard(|| PybiCoreMetadata::try_from(bytes.as_slice()).map_err(|e| e.to_string()));
    match got {
        Err(p) => rep.violation(key, format!("{show:?}: {p}")),
        Ok(Err(e)) if good => rep.violation(key, format!("{show:?} is refused: {e}")),
        Ok(Ok(_)) if !good => rep.violation(key, format!("{show:?} is accepted")),
        Ok(Err(_)) => rep.outcome("metadata refused"),
        Ok(Ok(m)) => {
            rep.outcome("metadata accepted");
            let vars: HashMap<String, String> = serde_json::from_str(parts[3].1 .0[0]).unwrap();
            let paths: BTreeMap<String, String> = serde_json::from_str(parts[5].1 .0[0]).unwrap();
            let got_paths: BTreeMap<String, String> = m.paths.iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
            let want_paths: BTreeMap<String, String> = paths.into_iter().map(|(k, v)| (k, if v.contains("..") { "lib/y".into() } else { v })).collect();
            if m.name.as_given() != parts[1].1 .0[0]
                || m.version != Version::try_from(parts[2].1 .0[0]).unwrap()
                || m.environment_marker_variables != vars
                || m.tags != ordered(parts, 4, variant)
                || got_paths != want_paths
            {
                rep.violation(key, format!("{show:?} reads as {m:?}"));
            }
        }
    }
}
