//! P11: versions and specifiers against a hand-written PEP 440.
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

use serde_json::json;

use super::core::*;
use crate::prelude::{Specifiers, Version};
use crate::vocab::Specifier;

////////////////////////////////////////////////////////////////
// The reference: PEP 440 versions, written from the text.

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Loc {
    // alphanumeric parts sort before numeric ones
    Text(String),
    Num(u64),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct V {
    pub epoch: u64,
    pub rel: Vec<u64>,
    /// 0 = a, 1 = b, 2 = rc
    pub pre: Option<(u8, u64)>,
    pub post: Option<u64>,
    pub dev: Option<u64>,
    pub local: Vec<Loc>,
}

fn trim(r: &[u64]) -> &[u64] {
    let mut n = r.len();
    while n > 0 && r[n - 1] == 0 {
        n -= 1;
    }
    &r[..n]
}

impl V {
    pub fn public(&self) -> V {
        V { local: vec![], ..self.clone() }
    }
    pub fn is_pre(&self) -> bool {
        self.pre.is_some() || self.dev.is_some()
    }
    /// .devN < aN < bN < rcN < (none) < .postN within one release; .devN comes before what it is a
    /// development version of
    pub fn vcmp(&self, o: &V) -> Ordering {
        fn stage(v: &V) -> (u8, u64) {
            match v.pre {
                Some((l, n)) => (1 + l, n),
                None if v.post.is_none() && v.dev.is_some() => (0, 0),
                None => (4, 0),
            }
        }
        self.epoch
            .cmp(&o.epoch)
            .then_with(|| {
                let (a, b) = (trim(&self.rel), trim(&o.rel));
                for i in 0..a.len().max(b.len()) {
                    let c = a.get(i).unwrap_or(&0).cmp(b.get(i).unwrap_or(&0));
                    if c != Ordering::Equal {
                        return c;
                    }
                }
                Ordering::Equal
            })
            .then_with(|| stage(self).cmp(&stage(o)))
            .then_with(|| self.post.map_or(-1, |n| n as i128).cmp(&o.post.map_or(-1, |n| n as i128)))
            .then_with(|| {
                self.dev.map_or(i128::MAX, |n| n as i128).cmp(&o.dev.map_or(i128::MAX, |n| n as i128))
            })
            .then_with(|| self.local.cmp(&o.local))
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        if self.epoch != 0 {
            s += &format!("{}!", self.epoch);
        }
        s += &self.rel.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(".");
        if let Some((l, n)) = self.pre {
            s += &format!("{}{}", ["a", "b", "rc"][l as usize], n);
        }
        if let Some(n) = self.post {
            s += &format!(".post{n}");
        }
        if let Some(n) = self.dev {
            s += &format!(".dev{n}");
        }
        if !self.local.is_empty() {
            let l: Vec<String> = self
                .local
                .iter()
                .map(|l| match l {
                    Loc::Text(t) => t.clone(),
                    Loc::Num(n) => n.to_string(),
                })
                .collect();
            s += &format!("+{}", l.join("."));
        }
        s
    }
}

/// The grammar of PEP 440 (appendix B), by hand, with backtracking; None: not a version.
/// The second part of the result: some number does not fit 32 bits.
pub fn parse_ref(text: &str) -> Option<(V, bool)> {
    let t = text.trim_matches(|c: char| c.is_ascii_whitespace() || c == '\x0b');
    if !t.is_ascii() {
        return None;
    }
    let s: Vec<u8> = t.to_ascii_lowercase().into_bytes();
    let big = std::cell::Cell::new(false);
    let num = |a: usize, b: usize| -> u64 {
        let d = std::str::from_utf8(&s[a..b]).unwrap();
        let n: u128 = d.trim_start_matches('0').parse().unwrap_or(if d.trim_start_matches('0').is_empty() { 0 } else { u128::MAX });
        if n >= u32::MAX as u128 {
            big.set(true);
        }
        n.min(u64::MAX as u128) as u64
    };
    let digits = |mut p: usize| {
        while p < s.len() && s[p].is_ascii_digit() {
            p += 1;
        }
        p
    };
    let is_sep = |p: usize| p < s.len() && matches!(s[p], b'-' | b'_' | b'.');
    let mut p = 0;
    if s.first() == Some(&b'v') {
        p = 1;
    }
    let mut epoch = 0;
    let d = digits(p);
    if d > p && s.get(d) == Some(&b'!') {
        epoch = num(p, d);
        p = d + 1;
    }
    let mut rel = vec![];
    loop {
        let d = digits(p);
        if d == p {
            return None;
        }
        rel.push(num(p, d));
        p = d;
        if s.get(p) == Some(&b'.') && digits(p + 1) > p + 1 {
            p += 1;
        } else {
            break;
        }
    }
    // [-_.]? label [-_.]? digits?, in order of preference
    let tagged = |p: usize, labels: &[(&str, u8)]| -> Vec<(usize, u8, Option<(usize, usize)>)> {
        let mut out = vec![];
        for q in [is_sep(p).then_some(p + 1), Some(p)].into_iter().flatten() {
            for (l, code) in labels {
                if s[q.min(s.len())..].starts_with(l.as_bytes()) {
                    let r = q + l.len();
                    for t in [is_sep(r).then_some(r + 1), Some(r)].into_iter().flatten() {
                        let d = digits(t);
                        if d > t {
                            out.push((d, *code, Some((t, d))));
                        }
                        out.push((t, *code, None));
                    }
                }
            }
        }
        out
    };
    let pres: Vec<(usize, Option<(u8, u64)>)> = tagged(
        p,
        &[("alpha", 0), ("a", 0), ("beta", 1), ("b", 1), ("preview", 2), ("pre", 2), ("rc", 2), ("c", 2)],
    )
    .into_iter()
    .map(|(e, c, n)| (e, Some((c, n.map_or(0, |(a, b)| num(a, b))))))
    .chain([(p, None)])
    .collect();
    for (p, pre) in pres {
        let mut posts = vec![];
        if s.get(p) == Some(&b'-') && digits(p + 1) > p + 1 {
            posts.push((digits(p + 1), Some(num(p + 1, digits(p + 1)))));
        }
        for (e, _, n) in tagged(p, &[("post", 0), ("rev", 0), ("r", 0)]) {
            posts.push((e, Some(n.map_or(0, |(a, b)| num(a, b)))));
        }
        posts.push((p, None));
        for (p, post) in posts {
            let mut devs: Vec<(usize, Option<u64>)> = tagged(p, &[("dev", 0)])
                .into_iter()
                .map(|(e, _, n)| (e, Some(n.map_or(0, |(a, b)| num(a, b)))))
                .collect();
            devs.push((p, None));
            for (p, dev) in devs {
                let mut v = V { epoch, rel: rel.clone(), pre, post, dev, local: vec![] };
                if p == s.len() {
                    return Some((v, big.get()));
                }
                if s[p] == b'+' {
                    let rest = std::str::from_utf8(&s[p + 1..]).unwrap();
                    let parts: Vec<&str> = rest.split(['-', '_', '.']).collect();
                    if parts.iter().all(|x| !x.is_empty() && x.bytes().all(|b| b.is_ascii_alphanumeric())) {
                        v.local = parts
                            .iter()
                            .map(|x| {
                                if x.bytes().all(|b| b.is_ascii_digit()) {
                                    let y = x.trim_start_matches('0');
                                    let n: u64 = if y.is_empty() { 0 } else { y.parse().unwrap_or(u64::MAX) };
                                    if n > u32::MAX as u64 {
                                        big.set(true);
                                    }
                                    Loc::Num(n)
                                } else {
                                    Loc::Text(x.to_string())
                                }
                            })
                            .collect();
                        return Some((v, big.get()));
                    }
                }
            }
        }
    }
    None
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Lt,
    Le,
    Eq,
    Ne,
    Ge,
    Gt,
    Compat,
    EqStar,
    NeStar,
}
pub const OPS: [Op; 9] = [Op::Lt, Op::Le, Op::Eq, Op::Ne, Op::Ge, Op::Gt, Op::Compat, Op::EqStar, Op::NeStar];

impl Op {
    pub fn sym(self) -> &'static str {
        match self {
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Eq | Op::EqStar => "==",
            Op::Ne | Op::NeStar => "!=",
            Op::Ge => ">=",
            Op::Gt => ">",
            Op::Compat => "~=",
        }
    }
    pub fn star(self) -> bool {
        matches!(self, Op::EqStar | Op::NeStar)
    }
}

/// May this right-hand side be used with this operator?
pub fn spec_valid(op: Op, s: &V) -> bool {
    match op {
        Op::Eq | Op::Ne => true,
        Op::EqStar | Op::NeStar => s.dev.is_none() && s.local.is_empty(),
        Op::Compat => s.rel.len() >= 2 && s.local.is_empty(),
        _ => s.local.is_empty(),
    }
}

/// Membership by the text of PEP 440.
fn member_text(op: Op, s: &V, p: &V) -> bool {
    use Ordering::*;
    match op {
        Op::Eq => {
            if s.local.is_empty() {
                p.public().vcmp(s) == Equal
            } else {
                p.vcmp(s) == Equal
            }
        }
        Op::Ne => !member_text(Op::Eq, s, p),
        Op::EqStar => {
            if p.epoch != s.epoch {
                return false;
            }
            if s.pre.is_none() && s.post.is_none() {
                return (0..s.rel.len()).all(|i| *p.rel.get(i).unwrap_or(&0) == s.rel[i]);
            }
            trim(&p.rel) == trim(&s.rel) && p.pre == s.pre && (s.post.is_none() || p.post == s.post)
        }
        Op::NeStar => !member_text(Op::EqStar, s, p),
        Op::Le => p.public().vcmp(s) != Greater,
        Op::Ge => p.public().vcmp(s) != Less,
        Op::Lt => {
            // no pre-releases of s, unless s is one
            let pre_of_s = if s.post.is_some() {
                V { dev: None, ..p.public() }.vcmp(s) == Equal
            } else {
                V { dev: None, pre: None, post: None, ..p.public() }.vcmp(s) == Equal
            };
            p.vcmp(s) == Less && (s.is_pre() || !(p.is_pre() && pre_of_s))
        }
        Op::Gt => {
            let post_of_s = p.post.is_some() && V { post: None, dev: None, ..p.public() }.vcmp(s) == Equal;
            p.vcmp(s) == Greater && (s.post.is_some() || !post_of_s) && p.public().vcmp(s) != Equal
        }
        Op::Compat => {
            let prefix = V { rel: s.rel[..s.rel.len() - 1].to_vec(), pre: None, post: None, dev: None, ..s.clone() };
            member_text(Op::Ge, s, p) && member_text(Op::EqStar, &prefix, p)
        }
    }
}

/// Membership as the reference implementation (packaging) decides it, which differs from the text
/// in a few corners; those are not judged.
fn member_packaging(op: Op, s: &V, p: &V) -> bool {
    use Ordering::*;
    let base = |v: &V| V { pre: None, post: None, dev: None, local: vec![], ..v.clone() };
    let same_base = base(p).vcmp(&base(s)) == Equal;
    match op {
        Op::Lt => p.vcmp(s) == Less && (s.is_pre() || !(p.is_pre() && same_base)),
        Op::Gt => {
            p.vcmp(s) == Greater
                && (s.post.is_some() || !(p.post.is_some() && same_base))
                && !(!p.local.is_empty() && same_base)
        }
        Op::EqStar => {
            let toks = |v: &V| {
                let mut t: Vec<String> = v.rel.iter().map(|n| n.to_string()).collect();
                let n = t.len();
                if let Some((l, k)) = v.pre {
                    t.push(format!("p{l}.{k}"));
                }
                if let Some(k) = v.post {
                    t.push(format!("post{k}"));
                }
                if let Some(k) = v.dev {
                    t.push(format!("dev{k}"));
                }
                (t, n)
            };
            let (st, sn) = toks(s);
            let (mut pt, pn) = toks(p);
            for _ in pn..sn {
                pt.insert(pn, "0".into());
            }
            p.epoch == s.epoch && pt.len() >= st.len() && pt[..st.len()] == st[..]
        }
        Op::NeStar => !member_packaging(Op::EqStar, s, p),
        _ => member_text(op, s, p),
    }
}

/// Some(answer) where text and reference implementation agree.
pub fn member(op: Op, s: &V, p: &V) -> Option<bool> {
    let (a, b) = (member_text(op, s, p), member_packaging(op, s, p));
    (a == b).then_some(a)
}

////////////////////////////////////////////////////////////////

fn locals(full: bool) -> Vec<Vec<Loc>> {
    let t = |s: &str| Loc::Text(s.into());
    let mut v = vec![vec![], vec![Loc::Num(0)], vec![t("a")], vec![t("a"), Loc::Num(1)]];
    if full {
        v.push(vec![Loc::Num(1), t("b")]);
        v.push(vec![Loc::Num(10)]);
        v.push(vec![t("1a")]);
    }
    v
}

/// Versions covering every combination of components at their boundary values.
pub fn grid(full: bool) -> Vec<V> {
    let rels: Vec<Vec<u64>> = if full {
        vec![vec![0], vec![0, 0], vec![1], vec![1, 0], vec![1, 0, 0], vec![1, 0, 1], vec![1, 1], vec![1, 9], vec![1, 10], vec![2], vec![2, 0], vec![9, 1], vec![10, 1]]
    } else {
        vec![vec![0], vec![1], vec![1, 0], vec![1, 0, 1], vec![1, 1], vec![1, 10], vec![2]]
    };
    let pres = if full {
        vec![None, Some((0, 0)), Some((0, 1)), Some((0, 10)), Some((1, 0)), Some((2, 1))]
    } else {
        vec![None, Some((0, 0)), Some((0, 1)), Some((1, 0)), Some((2, 1))]
    };
    let mut out = vec![];
    for epoch in [0, 1] {
        for rel in &rels {
            if epoch == 1 && rel.len() != 2 {
                continue;
            }
            // the successors of each kind, on one release
            let more: &[_] = if epoch == 0 && *rel == [1, 0] { &[Some((1, 1)), Some((2, 0)), Some((2, 2))] } else { &[] };
            for pre in pres.iter().chain(more) {
                for post in [None, Some(0), Some(1)] {
                    for dev in [None, Some(0), Some(1)] {
                        for local in locals(full) {
                            if !full && !local.is_empty() && *rel != vec![1, 0] && *rel != vec![2] {
                                continue;
                            }
                            out.push(V { epoch, rel: rel.clone(), pre: *pre, post, dev, local });
                        }
                    }
                }
            }
        }
    }
    out
}

/// Other spellings of the same version.
fn spellings(v: &V) -> Vec<String> {
    let mut out = vec![];
    for (seps, names) in [
        (["", "", ""], ["a", "b", "rc"]),
        (["-", "", "-"], ["alpha", "beta", "c"]),
        (["_", ".", "_"], ["ALPHA", "Beta", "pre"]),
        ([".", "-", "."], ["A", "b", "preview"]),
        (["", "_", "-"], ["a", "B", "RC"]),
    ] {
        for (prefix, zeros, post) in [("v", "", 0), ("", "0", 1), ("V", "00", 2), ("", "", 3)] {
            let mut s = prefix.to_string();
            if v.epoch != 0 {
                s += &format!("{zeros}{}!", v.epoch);
            }
            s += &v.rel.iter().map(|n| format!("{zeros}{n}")).collect::<Vec<_>>().join(".");
            if let Some((l, n)) = v.pre {
                s += &format!("{}{}", seps[0], names[l as usize]);
                if n != 0 || zeros != "" {
                    s += &format!("{}{zeros}{n}", seps[1]);
                } else if v.post.is_some() && post == 0 {
                    // an implicit number before an implicit post release would read as its number
                    s += "0";
                }
            }
            if let Some(n) = v.post {
                s += &match post {
                    0 => format!("-{zeros}{n}"),
                    1 => format!("{}post{zeros}{n}", seps[0]),
                    2 => format!("{}Rev{}{zeros}{n}", seps[2], seps[1]),
                    _ => format!("{}r{}", seps[0], if n == 0 { String::new() } else { format!("{}{n}", seps[1]) }),
                };
            }
            if let Some(n) = v.dev {
                s += &format!("{}dEv", seps[2]);
                if n != 0 {
                    s += &format!("{}{n}", seps[1]);
                }
            }
            if !v.local.is_empty() {
                let sep = ["-", "_", "."][post.min(2)];
                s += "+";
                s += &v
                    .local
                    .iter()
                    .map(|l| match l {
                        Loc::Text(t) => t.to_uppercase(),
                        Loc::Num(n) => format!("{zeros}{n}"),
                    })
                    .collect::<Vec<_>>()
                    .join(sep);
            }
            out.push(s);
        }
    }
    out.push(format!(" {}\t", v.text()));
    out.push(format!("{}\n", v.text()));
    out
}

fn hash_of(v: &Version) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn pv(s: &str) -> std::result::Result<Version, String> {
    guard(|| Version::try_from(s).map_err(|e| e.to_string()))?
}

#[derive(Debug, Clone)]
enum Case {
    /// one version of the grid: spellings, order against all others
    Order(usize),
    /// one operator and right-hand side against all versions
    Spec(Op, usize),
    /// pairs of comma-joined specifiers
    Joined(usize),
    /// all token sequences with this beginning
    Tokens(usize, usize),
    Numbers,
    LocalNumbers,
}

const TOKENS: &[&str] = &[
    "1", "0", "10", ".", "-", "_", "a", "rc", "c", "alpha", "pre", "post", "r", "dev", "+", "!", "v", " ", "x", "é", "*", "4294967296",
];

pub fn p11(mut ctx: Ctx) -> i32 {
    let full = ctx.thorough();
    let vs = grid(full);
    let depth = ctx.pick(4, 5);
    let mut cases = vec![Case::Numbers, Case::LocalNumbers];
    for i in 0..vs.len() {
        cases.push(Case::Order(i));
    }
    // right-hand sides: a smaller grid gives the same classes
    let rhs: Vec<usize> = (0..vs.len()).filter(|i| full || vs[*i].rel != vec![1, 10]).collect();
    for op in OPS {
        for i in &rhs {
            cases.push(Case::Spec(op, *i));
        }
    }
    let parts = joinable();
    for i in 0..parts.len() {
        cases.push(Case::Joined(i));
    }
    for a in 0..TOKENS.len() {
        for b in 0..TOKENS.len() {
            cases.push(Case::Tokens(a, b));
        }
    }
    let real: Vec<Version> = vs.iter().map(|v| pv(&v.text()).unwrap_or_else(|e| panic!("{}: {e}", v.text()))).collect();
    let name = |c: &Case| match c {
        Case::Order(i) => format!("order {}", vs[*i].text()),
        Case::Spec(op, i) => format!("spec {}{}{}", op.sym(), vs[*i].text(), if op.star() { ".*" } else { "" }),
        Case::Joined(i) => format!("joined {}", parts[*i].0),
        Case::Tokens(a, b) => format!("tokens {:?} {:?}", TOKENS[*a], TOKENS[*b]),
        Case::Numbers => "numbers".into(),
        Case::LocalNumbers => "local numbers".into(),
    };
    ctx.run_cases(&cases, name, |case, rep, _dir| {
        let key = name(case);
        rep.states += 1;
        match case {
            Case::Order(i) => {
                let (v, r) = (&vs[*i], &real[*i]);
                for (t, canonical) in spellings(v).into_iter().map(|s| (s, false)).chain([(v.text(), true)]) {
                    rep.traces += 1;
                    match parse_ref(&t) {
                        Some((w, _)) if w == *v => (),
                        other => panic!("harness: {t:?} should be {v:?}, reads as {other:?}"),
                    }
                    rep.case(&format!("spelling {t}"), !canonical);
                    match pv(&t) {
                        Err(e) => rep.violation(key.clone(), format!("{t:?} is the version {} but refused: {e}", v.text())),
                        Ok(x) => {
                            if x != *r || hash_of(&x) != hash_of(r) {
                                rep.violation(key.clone(), format!("{t:?} is not equal to {}", v.text()));
                            }
                            if x.to_string() != v.text() {
                                rep.violation(key.clone(), format!("{t:?} prints as {x}, not {}", v.text()));
                            }
                            if x.is_prerelease() != v.is_pre() {
                                rep.violation(key.clone(), format!("{t:?}: is_prerelease {}", x.is_prerelease()));
                            }
                        }
                    }
                }
                let next = guard(|| r.next());
                for (j, w) in vs.iter().enumerate() {
                    let want = v.vcmp(w);
                    let got = r.cmp(&real[j]);
                    rep.transitions += 1;
                    if got != want || r.partial_cmp(&real[j]) != Some(want) || (*r == real[j]) != (want == Ordering::Equal) {
                        rep.violation(key.clone(), format!("{} compared to {}: {got:?} instead of {want:?}", v.text(), w.text()));
                        return;
                    }
                    if want == Ordering::Equal && hash_of(r) != hash_of(&real[j]) {
                        rep.violation(key.clone(), format!("{} and {} are equal but hash differently", v.text(), w.text()));
                    }
                    // "the smallest version that is larger": nothing lies between
                    match &next {
                        Err(e) => rep.violation(key.clone(), format!("next of {}: {e}", v.text())),
                        Ok(n) => {
                            if (want == Ordering::Less) != (*n <= real[j]) {
                                rep.violation(key.clone(), format!("{} lies between {} and its successor, or that is not larger", w.text(), v.text()));
                                return;
                            }
                        }
                    }
                }
                rep.evaluations += vs.len() as u64;
                if *i < 3 {
                    rep.sample(json!({"version": v.text(), "spellings": spellings(v).len(), "compared_to": vs.len()}));
                }
            }
            Case::Spec(op, i) => {
                let s = &vs[*i];
                let text = format!("{}{}{}", op.sym(), s.text(), if op.star() { ".*" } else { "" });
                let valid = spec_valid(*op, s);
                let got = guard(|| -> crate::prelude::Result<(Specifiers, _)> {
                    let sp: Specifiers = text.as_str().try_into()?;
                    sp.0[0].to_ranges()?;
                    let r = crate::resolve::verif::range(&sp)?;
                    Ok((sp, r))
                });
                rep.case(&text, true);
                let (sp, range) = match (valid, got) {
                    (_, Err(p)) => {
                        rep.violation(key, p);
                        return;
                    }
                    // prefixes ending in .preN.* or .postN.* are refused by newer versions of packaging
                    (true, Ok(Err(_))) if op.star() && (s.pre.is_some() || s.post.is_some()) => {
                        rep.outcome("refused specifier");
                        return;
                    }
                    (true, Ok(Err(e))) => {
                        rep.violation(key, format!("{text:?} is refused: {e}"));
                        return;
                    }
                    (false, Ok(Ok(_))) => {
                        rep.violation(key, format!("{text:?} is accepted, but PEP 440 does not allow it"));
                        return;
                    }
                    (false, Ok(Err(_))) => {
                        rep.outcome("refused specifier");
                        return;
                    }
                    (true, Ok(Ok(x))) => x,
                };
                let (mut inn, mut out, mut skip) = (0u64, 0u64, 0u64);
                for (j, p) in vs.iter().enumerate() {
                    rep.transitions += 1;
                    let got = match sp.satisfied_by(&real[j]) {
                        Ok(b) => b,
                        Err(e) => {
                            rep.violation(key, format!("{} in {text}: {e}", p.text()));
                            return;
                        }
                    };
                    if range.contains(&real[j]) != got {
                        rep.violation(key, format!("{} in {text}: specifier says {got}, the solver's range {}", p.text(), !got));
                        return;
                    }
                    match member(*op, s, p) {
                        None => skip += 1,
                        Some(want) => {
                            if want {
                                inn += 1
                            } else {
                                out += 1
                            }
                            if want != got {
                                rep.violation(key, format!("{} in {text}: {got} instead of {want}", p.text()));
                                return;
                            }
                        }
                    }
                }
                rep.evaluations += vs.len() as u64;
                *rep.outcomes.entry(format!("{op:?} in")).or_insert(0) += inn;
                *rep.outcomes.entry(format!("{op:?} out")).or_insert(0) += out;
                *rep.outcomes.entry("not judged (text and packaging differ)".into()).or_insert(0) += skip;
                rep.traces += 1;
            }
            Case::Joined(i) => {
                let step = if full { 1 } else { 3 };
                for (b, mb) in &parts {
                    for form in 0..4 {
                        let (a, ma) = &parts[*i];
                        let text = match form {
                            0 => format!("{a},{b}"),
                            1 => format!(" {a} , {b} "),
                            2 => format!("({a},{b})"),
                            _ => format!("( {a}\t,{b} )"),
                        };
                        rep.case(&text, true);
                        rep.traces += 1;
                        let got = guard(|| -> crate::prelude::Result<_> {
                            let sp: Specifiers = text.as_str().try_into()?;
                            let r = crate::resolve::verif::range(&sp)?;
                            Ok((sp, r))
                        });
                        let (sp, range) = match got {
                            Ok(Ok(x)) => x,
                            Ok(Err(e)) => {
                                rep.violation(key.clone(), format!("{text:?} is refused: {e}"));
                                return;
                            }
                            Err(p) => {
                                rep.violation(key.clone(), format!("{text:?}: {p}"));
                                return;
                            }
                        };
                        let back: Specifiers = match sp.to_string().parse() {
                            Ok(x) => x,
                            Err(e) => {
                                rep.violation(key.clone(), format!("{text:?} prints as {sp}, which is refused: {e}"));
                                return;
                            }
                        };
                        if back != sp || sp.0.len() != 2 {
                            rep.violation(key.clone(), format!("{text:?} reads as {sp:?}, its print as {back:?}"));
                            return;
                        }
                        for j in (0..vs.len()).step_by(step) {
                            rep.transitions += 1;
                            let got = sp.satisfied_by(&real[j]).unwrap_or(false);
                            if range.contains(&real[j]) != got {
                                rep.violation(key.clone(), format!("{} in {text}: specifier says {got}, the solver's range {}", vs[j].text(), !got));
                                return;
                            }
                            if let (Some(x), Some(y)) = (member(ma.0, &ma.1, &vs[j]), member(mb.0, &mb.1, &vs[j])) {
                                if got != (x && y) {
                                    rep.violation(key.clone(), format!("{} in {text}: {got} instead of {}", vs[j].text(), x && y));
                                    return;
                                }
                            }
                        }
                        rep.outcome("joined");
                    }
                }
            }
            Case::Tokens(a, b) => {
                // every continuation, shortest first
                let mut level: Vec<String> = vec![format!("{}{}", TOKENS[*a], TOKENS[*b])];
                if *a == 0 && *b == 0 {
                    // sequences of no or one token
                    level.push(String::new());
                    level.extend(TOKENS.iter().map(|t| t.to_string()));
                }
                for d in 2..=depth {
                    for t in &level {
                        tokens_one(t, rep, &key);
                        if rep.violations.len() > 5 {
                            return;
                        }
                    }
                    if d < depth {
                        level = level.iter().flat_map(|s| TOKENS.iter().map(move |t| format!("{s}{t}"))).collect();
                    }
                }
            }
            Case::LocalNumbers => {
                rep.case("local numbers", true);
                if pv("1.0+5").unwrap() > pv("1.0+4294967296").unwrap() {
                    rep.violation(key.clone(), "1.0+5 is ordered after 1.0+4294967296");
                }
                // no specifiers at all allow everything, however much space is around them
                for text in ["", " ", "\t", "  \t "] {
                    rep.transitions += 1;
                    let all = guard(|| -> crate::prelude::Result<bool> {
                        let s: Specifiers = text.try_into()?;
                        let r = crate::resolve::verif::range(&s)?;
                        Ok(["0", "1.0", "2!1.0"].iter().all(|v| matches!((s.satisfied_by(&pv(v).unwrap()), r.contains(&pv(v).unwrap())), (Ok(true), true))))
                    });
                    if !matches!(all, Ok(Ok(true))) {
                        rep.violation(key.clone(), format!("no specifiers ({text:?}) are not met by every version: {all:?}"));
                    }
                }
            }
            Case::Numbers => {
                for n in ["4294967294", "4294967295", "4294967296", "18446744073709551616", "20230101123456", "00000000000000000001", "99999999999999999999999999999999999999999999"] {
                    for t in ["N", "N!1", "1.N", "1.0aN", "1.0rcN", "1.0.postN", "1.0-N", "1.0.devN", "1.0a1.postN.dev1", "1.0.post1.devN", "1.0+N", "1.0+a.N"] {
                        let text = t.replace('N', n);
                        tokens_one(&text, rep, &key);
                        for op in OPS {
                            let text = format!("{}{}{}", op.sym(), text, if op.star() { ".*" } else { "" });
                            rep.case(&text, true);
                            if let Err(p) = guard(|| -> crate::prelude::Result<()> {
                                let s: Specifiers = text.as_str().try_into()?;
                                s.satisfied_by(&"1.0".parse()?)?;
                                crate::resolve::verif::range(&s)?;
                                Ok(())
                            }) {
                                rep.violation(key.clone(), format!("{text}: {p}"));
                            }
                        }
                    }
                }
            }
        }
    });
    finish(ctx, Level {
        level: "model_checking",
        rule: "every version of a grid over all components: order, equality, hash and successor against every other one and 22 spellings of each; every operator with every version of the grid as its right-hand side, decided for every version by the specifier and by the solver's range; all pairs of a set of specifiers in four notations; every text of up to the bound of tokens and all extreme numbers, accepted exactly if PEP 440's grammar accepts it; states = cases, transitions = decisions compared with the reference; distinct = distinct texts",
        assumptions: &[
            "the reference is hand-written from PEP 440; where its text and the packaging library differ (a release's base version instead of the version itself in < and >, zero padding with suffixed prefixes), either answer is taken",
            "numbers that do not fit 32 bits may be refused",
            "=== is not supported by design",
        ],
    })
}

fn joinable() -> Vec<(String, (Op, V))> {
    let v = |s: &str| parse_ref(s).unwrap().0;
    [
        (Op::Ge, "1.0"), (Op::Lt, "1.0"), (Op::Lt, "2"), (Op::Gt, "1.0"), (Op::Le, "1.0.post1"), (Op::Ne, "1.0"), (Op::Ne, "1.0a1"),
        (Op::Eq, "1.0"), (Op::EqStar, "1.0"), (Op::NeStar, "1"), (Op::NeStar, "1.0"), (Op::Compat, "1.0"), (Op::Compat, "1.0.1"), (Op::Gt, "1.0a1.dev0"),
        (Op::Eq, "1.0+a"), (Op::Ge, "1!1.0"), (Op::Ne, "1.0+a.1"), (Op::Le, "0"), (Op::Gt, "1.0.post0"), (Op::Lt, "0.dev0"),
    ]
    .into_iter()
    .map(|(op, s)| (format!("{}{}{}", op.sym(), s, if op.star() { ".*" } else { "" }), (op, v(s))))
    .collect()
}

/// One text: accepted as the version, or refused, as the grammar says.
fn tokens_one(t: &str, rep: &mut Rep, key: &str) {
    rep.traces += 1;
    let want = parse_ref(t);
    let got = pv(t);
    rep.case(&format!("text {t}"), want.is_some());
    match (want, got) {
        (None, Err(e)) => {
            if e.starts_with("panic") {
                rep.violation(key, format!("{t:?}: {e}"));
            }
            rep.outcome("refused text");
        }
        (None, Ok(v)) => rep.violation(key, format!("{t:?} is not a version but read as {v}")),
        (Some((_, true)), Err(e)) if !e.starts_with("panic") => rep.outcome("refused number"),
        (Some((w, _)), Err(e)) => rep.violation(key, format!("{t:?} is the version {} but refused: {e}", w.text())),
        (Some((w, big)), Ok(v)) => {
            // equal means: prints as the same normal form
            let (mut a, mut b) = (v.to_string(), w.text());
            if big {
                a = a.split('+').next().unwrap().to_string();
                b = w.public().text();
            }
            if a != b {
                rep.violation(key, format!("{t:?} is the version {} but read as {v}", w.text()));
            }
            rep.outcome(if big { "accepted number" } else { "accepted text" });
        }
    }
    // with one of the operators the same text has to be judged the same way
    let spec = Specifier { op: crate::vocab::CompareOp::GreaterThanEqual, value: t.to_string() };
    if let Err(p) = guard(|| spec.to_ranges().is_ok()) {
        rep.violation(key, format!(">= {t:?}: {p}"));
    }
}

/// The reference's decisions, for comparing it with the packaging library (tools/oracle-p11.py).
pub fn dump() {
    use std::io::Write;
    let mut o = std::io::BufWriter::new(std::io::stdout());
    let vs: Vec<V> = grid(false).into_iter().filter(|v| v.rel != vec![1, 10] && v.rel != vec![0]).collect();
    for s in &vs {
        for p in &vs {
            let row: String = OPS
                .iter()
                .map(|op| if !spec_valid(*op, s) { 'x' } else { member(*op, s, p).map_or('?', |b| if b { '1' } else { '0' }) })
                .collect();
            writeln!(o, "{}\t{}\t{}\t{}", s.text(), p.text(), row, s.vcmp(p) as i8).unwrap();
        }
    }
}
