//! P12: requirements and markers against a hand-written PEP 508.
use std::collections::{BTreeSet, HashMap};

use serde_json::json;

use super::core::*;
use super::p_vocab::{member, parse_ref, spec_valid, Op};
use crate::prelude::{marker, PackageRequirement, PythonRequirement, Requirement, StandaloneMarkerExpr, UserRequirement};

////////////////////////////////////////////////////////////////
// The reference grammar and semantics.

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    And(Box<M>, Box<M>),
    Or(Box<M>, Box<M>),
    Cmp(Val, &'static str, Val),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Var(&'static str),
    Lit(String),
}

const VARS: &[&str] = &[
    "python_version", "python_full_version", "os_name", "sys_platform", "platform_release", "platform_system", "platform_version",
    "platform_machine", "platform_python_implementation", "implementation_name", "implementation_version", "extra",
];
/// older spellings that posy documents to accept
const ALIASES: &[(&str, &str)] = &[
    ("os.name", "os_name"), ("sys.platform", "sys_platform"), ("platform.version", "platform_version"),
    ("platform.machine", "platform_machine"), ("platform.python_implementation", "platform_python_implementation"),
    ("python_implementation", "platform_python_implementation"),
];

struct P<'a> {
    s: &'a [u8],
    i: usize,
    /// the text names the variable "extra"
    extra: bool,
    depth: usize,
}

type R<T> = std::result::Result<T, ()>;

impl<'a> P<'a> {
    fn new(s: &'a str) -> P<'a> {
        P { s: s.as_bytes(), i: 0, extra: false, depth: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t') {
            self.i += 1;
        }
    }
    fn lit(&mut self, t: &str) -> bool {
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn end(&self) -> bool {
        self.i == self.s.len()
    }
    fn cmp_op(&mut self) -> Option<&'static str> {
        ["<=", "<", "!=", "==", ">=", ">", "~="].into_iter().find(|o| self.lit(o))
    }
    fn identifier(&mut self) -> R<String> {
        let an = |c: Option<&u8>| c.map_or(false, |c| c.is_ascii_alphanumeric());
        let a = self.i;
        if !an(self.s.get(a)) {
            return Err(());
        }
        let mut end = a + 1;
        let mut p = a + 1;
        while p < self.s.len() {
            if an(self.s.get(p)) {
                p += 1;
                end = p;
            } else if matches!(self.s[p], b'-' | b'_' | b'.') {
                p += 1;
            } else {
                break;
            }
        }
        self.i = end;
        Ok(String::from_utf8_lossy(&self.s[a..end]).into())
    }
    fn version_one(&mut self) -> R<(&'static str, String)> {
        self.ws();
        let op = self.cmp_op().ok_or(())?;
        self.ws();
        let a = self.i;
        while self.i < self.s.len()
            && (self.s[self.i].is_ascii_alphanumeric() || b"-_.*+!".contains(&self.s[self.i]))
        {
            self.i += 1;
        }
        if a == self.i {
            return Err(());
        }
        let v = String::from_utf8_lossy(&self.s[a..self.i]).into();
        self.ws();
        Ok((op, v))
    }
    fn version_many(&mut self) -> R<Vec<(&'static str, String)>> {
        let mut v = vec![self.version_one()?];
        loop {
            let save = self.i;
            self.ws();
            if !self.lit(",") {
                self.i = save;
                return Ok(v);
            }
            match self.version_one() {
                Ok(x) => v.push(x),
                Err(()) => {
                    self.i = save;
                    return Ok(v);
                }
            }
        }
    }
    fn val(&mut self) -> R<Val> {
        self.ws();
        for q in [b'\'', b'"'] {
            if self.s.get(self.i) == Some(&q) {
                let a = self.i + 1;
                let mut p = a;
                while p < self.s.len() && self.s[p] != q {
                    let c = self.s[p];
                    let ok = c.is_ascii_alphanumeric() || b" \t().{}-_*#:;,/?[]!~`@$%^&=+|<>".contains(&c) || (c == b'"' || c == b'\'');
                    if !ok {
                        return Err(());
                    }
                    p += 1;
                }
                if p == self.s.len() {
                    return Err(());
                }
                self.i = p + 1;
                return Ok(Val::Lit(String::from_utf8_lossy(&self.s[a..p]).into()));
            }
        }
        for v in VARS {
            if self.lit(v) {
                self.extra |= *v == "extra";
                return Ok(Val::Var(v));
            }
        }
        for (a, v) in ALIASES {
            if self.lit(a) {
                return Ok(Val::Var(v));
            }
        }
        Err(())
    }
    fn marker_op(&mut self) -> R<&'static str> {
        self.ws();
        if let Some(o) = self.cmp_op() {
            return Ok(o);
        }
        if self.lit("in") {
            return Ok("in");
        }
        if self.lit("not") {
            let a = self.i;
            self.ws();
            if self.i > a && self.lit("in") {
                return Ok("not in");
            }
        }
        Err(())
    }
    fn atom(&mut self) -> R<M> {
        self.ws();
        if self.lit("(") {
            self.depth += 1;
            let m = self.or()?;
            self.ws();
            return if self.lit(")") { Ok(m) } else { Err(()) };
        }
        let a = self.val()?;
        let o = self.marker_op()?;
        let b = self.val()?;
        Ok(M::Cmp(a, o, b))
    }
    fn and(&mut self) -> R<M> {
        let a = self.atom()?;
        let save = self.i;
        self.ws();
        if self.lit("and") {
            return Ok(M::And(Box::new(a), Box::new(self.and()?)));
        }
        self.i = save;
        Ok(a)
    }
    fn or(&mut self) -> R<M> {
        let a = self.and()?;
        let save = self.i;
        self.ws();
        if self.lit("or") {
            return Ok(M::Or(Box::new(a), Box::new(self.or()?)));
        }
        self.i = save;
        Ok(a)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Req {
    name: String,
    extras: Vec<String>,
    specs: Vec<(&'static str, String)>,
    marker: Option<M>,
    uses_extra: bool,
}

fn parse_marker(s: &str) -> Option<(M, bool)> {
    let mut p = P::new(s);
    let m = p.or().ok()?;
    p.end().then_some((m, p.extra))
}

fn parse_req(s: &str) -> Option<Req> {
    let mut p = P::new(s);
    p.ws();
    let name = p.identifier().ok()?;
    p.ws();
    let mut extras = vec![];
    if p.lit("[") {
        p.ws();
        if let Ok(e) = p.identifier() {
            extras.push(e);
            loop {
                p.ws();
                if !p.lit(",") {
                    break;
                }
                p.ws();
                extras.push(p.identifier().ok()?);
            }
        }
        p.ws();
        if !p.lit("]") {
            return None;
        }
    }
    p.ws();
    let mut specs = vec![];
    if p.lit("(") {
        specs = p.version_many().ok()?;
        if !p.lit(")") {
            return None;
        }
    } else if !p.end() && b"<>=!~".contains(&p.s[p.i]) {
        specs = p.version_many().ok()?;
    }
    p.ws();
    let mut marker = None;
    if p.lit(";") {
        p.ws();
        marker = Some(p.or().ok()?);
    }
    p.ws();
    p.end().then_some(Req { name, extras, specs, marker, uses_extra: p.extra })
}

fn norm(n: &str) -> String {
    let mut out = String::new();
    for c in n.chars() {
        if matches!(c, '-' | '_' | '.') {
            if !out.ends_with('-') {
                out.push('-');
            }
        } else {
            out.push(c.to_ascii_lowercase());
        }
    }
    out
}

fn valid_name(n: &str) -> bool {
    let b = n.as_bytes();
    !b.is_empty()
        && b[0].is_ascii_alphanumeric()
        && b[b.len() - 1].is_ascii_alphanumeric()
        && b.iter().all(|c| c.is_ascii_alphanumeric() || b"-_.".contains(c))
}

fn op_of(sym: &str, star: bool) -> Option<Op> {
    Some(match (sym, star) {
        ("<", false) => Op::Lt,
        ("<=", false) => Op::Le,
        ("==", false) => Op::Eq,
        ("!=", false) => Op::Ne,
        (">=", false) => Op::Ge,
        (">", false) => Op::Gt,
        ("~=", false) => Op::Compat,
        ("==", true) => Op::EqStar,
        ("!=", true) => Op::NeStar,
        _ => return None,
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Answer {
    Is(bool),
    Error,
    /// not judged
    Any,
}

/// One comparison, by PEP 508: version comparison if both sides allow it, else Python's.
fn compare(l: &str, op: &str, r: &str) -> Answer {
    match op {
        "in" => return Answer::Is(r.contains(l)),
        "not in" => return Answer::Is(!r.contains(l)),
        _ => (),
    }
    let (rv, star) = match r.trim().strip_suffix(".*") {
        Some(x) => (x, true),
        None => (r, false),
    };
    if let (Some((lv, lbig)), Some((rv, rbig)), Some(o)) = (parse_ref(l), parse_ref(rv), op_of(op, star)) {
        if lbig || rbig {
            return Answer::Any;
        }
        if spec_valid(o, &rv) {
            if star && (rv.pre.is_some() || rv.post.is_some()) {
                return Answer::Any;
            }
            return member(o, &rv, &lv).map_or(Answer::Any, Answer::Is);
        }
    }
    match op {
        "<" => Answer::Is(l < r),
        "<=" => Answer::Is(l <= r),
        "==" => Answer::Is(l == r),
        "!=" => Answer::Is(l != r),
        ">=" => Answer::Is(l >= r),
        ">" => Answer::Is(l > r),
        _ => Answer::Error,
    }
}

type Env = HashMap<&'static str, &'static str>;

fn eval_ref(m: &M, env: &Env) -> Answer {
    use Answer::*;
    match m {
        M::And(a, b) => match (eval_ref(a, env), eval_ref(b, env)) {
            (Is(false), _) => Is(false),
            (Is(true), x) => x,
            // an error beside a false side may or may not surface
            (Error, Is(false)) => Any,
            (Error, _) => Error,
            (Any, _) => Any,
        },
        M::Or(a, b) => match (eval_ref(a, env), eval_ref(b, env)) {
            (Is(true), _) => Is(true),
            (Is(false), x) => x,
            (Error, Is(true)) => Any,
            (Error, _) => Error,
            (Any, _) => Any,
        },
        // a variable that has no value
        M::Cmp(a, _, b) if [a, b].into_iter().any(|v| matches!(v, Val::Var(n) if !env.contains_key(n))) => Error,
        M::Cmp(a, op, b) => {
            let val = |v: &Val| match v {
                Val::Var(n) => env[n].to_string(),
                Val::Lit(l) => l.clone(),
            };
            let (mut l, mut r) = (val(a), val(b));
            let is_extra = |v: &Val| matches!(v, Val::Var("extra"));
            if is_extra(a) || is_extra(b) {
                for x in [&mut l, &mut r] {
                    if valid_name(x) {
                        *x = norm(x);
                    }
                }
                let plain = match *op {
                    "==" => Some(l == r),
                    "!=" => Some(l != r),
                    _ => None,
                };
                // names that also read as versions: PEP 508 and PEP 685 point different ways
                if plain.is_some() && parse_ref(&l).is_some() && parse_ref(&r).is_some() {
                    return Any;
                }
            }
            compare(&l, op, &r)
        }
    }
}

////////////////////////////////////////////////////////////////

const OPS: &[&str] = &["<", "<=", "==", "!=", ">=", ">", "~=", "in", "not in"];
const LITS: &[&str] = &[
    "3.8", "3.10", "3.8.*", "3.8.1", "3", "3.9.0rc1", "v3.8", "3.8.post1", "1.0+x", "linux", "Linux", "lin", "win32", "", "2.7 3.8", "foo-bar", "Foo_Bar", "foo--bar", "a b", "5.4.0-42-generic", "1.*", " 3.8 ", "linux-", "*",
];
const VALUES: &[&str] = &["3.8", "3.10", "3.9.0rc1", "3.8.1", "linux", "win32", "", "5.4.0-42-generic", "3.8+x", "3.8.0", "Linux"];

#[derive(Clone, Debug)]
enum Case {
    /// variable or literal on each side, one operator
    Atoms { op: usize, left: usize },
    /// all boolean token sequences beginning so
    Bool(usize, usize),
    /// all requirement token sequences beginning so
    Req(usize, usize),
    /// every character in a string literal
    Chars,
    Nesting,
    /// every variable by each of its names
    Variables,
}

const BTOK: &[&str] = &["A", "B", "(", ")", "and", "or", "not"];
const ATOM: &[&str] = &["os_name == 'a'", "sys_platform=='b'"];
const RTOK: &[&str] = &[
    "foo", "A.b_c", "-", "[", "]", ",", "x", "(", ")", ">=1", "== 2.*", "<", "~=1.0.0+", ";", "os_name=='a'", " or 'b' in extra", " ", "\t", "1", "and", ".", "!= 1!2",
];

fn reference_check(text: &str, rep: &mut Rep, key: &str) {
    if text.contains("===") {
        return;
    }
    rep.traces += 1;
    let want = parse_req(text);
    rep.case(text, want.is_some());
    let user = guard(|| UserRequirement::try_from(text).map_err(|e| e.to_string()));
    let pkg = guard(|| PackageRequirement::try_from(text).map_err(|e| e.to_string()));
    let py = guard(|| PythonRequirement::try_from(text).map_err(|e| e.to_string()));
    for p in [user.as_ref().err(), pkg.as_ref().err(), py.as_ref().err()].into_iter().flatten() {
        rep.violation(key, format!("{text:?}: {p}"));
        return;
    }
    let (user, pkg, py) = (user.unwrap(), pkg.unwrap(), py.unwrap());
    let allowed = |ok: bool, got: bool, what: &str, rep: &mut Rep| {
        if ok != got {
            rep.violation(key, format!("{text:?} {} as a {what} requirement", if got { "is accepted" } else { "is refused" }));
        }
    };
    let w = want.as_ref();
    allowed(w.is_some(), pkg.is_ok(), "package", rep);
    allowed(w.map_or(false, |r| !r.uses_extra), user.is_ok(), "user", rep);
    allowed(w.map_or(false, |r| r.extras.is_empty() && r.marker.is_none()), py.is_ok(), "python", rep);
    rep.outcome(match (pkg.is_ok(), user.is_ok(), py.is_ok()) {
        (true, true, true) => "accepted everywhere",
        (true, true, false) => "accepted, not for python",
        (true, false, false) => "accepted for packages only",
        _ => "refused",
    });
    let (Some(want), Ok(pkg)) = (want, pkg) else { return };
    let one = |got: &Requirement, rep: &mut Rep| {
        let specs: Vec<(String, String)> = got.specifiers.0.iter().map(|s| (s.op.to_string(), s.value.clone())).collect();
        let ws: Vec<(String, String)> = want.specs.iter().map(|(a, b)| (a.to_string(), b.clone())).collect();
        let extras: Vec<&str> = got.extras.iter().map(|e| e.as_given()).collect();
        if got.name.as_given() != want.name || extras != want.extras || specs != ws || got.env_marker_expr.is_some() != want.marker.is_some() {
            rep.violation(key, format!("{text:?} reads as {got:?}, not {want:?}"));
            return;
        }
        if let (Some(m), Some(w)) = (&got.env_marker_expr, &want.marker) {
            for (o, s, e) in [("a", "x", ""), ("c", "b", "b"), ("c", "x", "bb"), ("c", "c", "c")] {
                let mut env = base_env();
                env.insert("os_name", o);
                env.insert("sys_platform", s);
                env.insert("extra", e);
                check_eval(m, w, &env, text, rep, key);
            }
        }
    };
    one(&pkg, rep);
    let again = guard(|| PackageRequirement::try_from(pkg.to_string().as_str()).map_err(|e| e.to_string()));
    match again {
        Ok(Ok(p2)) if p2 == pkg && p2.name.as_given() == pkg.name.as_given() => (),
        x => rep.violation(key, format!("{text:?} prints as {pkg}, which reads back as {x:?}")),
    }
}

fn base_env() -> Env {
    let mut e: Env = VARS.iter().map(|v| (*v, "0")).collect();
    e.insert("extra", "");
    e
}

fn check_eval(m: &marker::EnvMarkerExpr, w: &M, env: &Env, text: &str, rep: &mut Rep, key: &str) {
    rep.transitions += 1;
    let got = guard(|| m.eval(env).map_err(|e| e.to_string()));
    let ok = match (eval_ref(w, env), &got) {
        (_, Err(_)) => false,
        (Answer::Is(b), Ok(Ok(x))) => b == *x,
        (Answer::Error, Ok(Err(_))) | (Answer::Any, _) => true,
        _ => false,
    };
    if !ok {
        let used: Vec<_> = env.iter().filter(|(_, v)| **v != "0").collect();
        rep.violation(key, format!("{text:?} in {used:?}: {got:?} instead of {:?}", eval_ref(w, env)));
    }
}

pub fn p12(mut ctx: Ctx) -> i32 {
    ctx.hang_secs = 60;
    let full = ctx.thorough();
    let bdepth = ctx.pick(7usize, 9);
    let rdepth = ctx.pick(4usize, 5);
    let sides: Vec<String> = ["python_version", "os_name", "extra"]
        .iter()
        .map(|s| s.to_string())
        .chain(LITS.iter().map(|l| if l.contains('\'') { format!("\"{l}\"") } else { format!("'{l}'") }))
        .collect();
    let mut cases = vec![Case::Chars, Case::Nesting, Case::Variables];
    for op in 0..OPS.len() {
        for left in 0..sides.len() {
            cases.push(Case::Atoms { op, left });
        }
    }
    for a in 0..BTOK.len() {
        for b in 0..BTOK.len() {
            cases.push(Case::Bool(a, b));
        }
    }
    for a in 0..RTOK.len() {
        for b in 0..RTOK.len() {
            cases.push(Case::Req(a, b));
        }
    }
    let key = |c: &Case| match c {
        Case::Atoms { op, left } => format!("{} {} ...", sides[*left], OPS[*op]),
        Case::Bool(a, b) => format!("boolean {} {} ...", BTOK[*a], BTOK[*b]),
        Case::Req(a, b) => format!("requirement {:?} {:?} ...", RTOK[*a], RTOK[*b]),
        Case::Chars => "characters".into(),
        Case::Nesting => "nesting".into(),
        Case::Variables => "variables".into(),
    };
    ctx.run_cases(&cases, key, |case, rep, _dir| {
        let key = key(case);
        rep.states += 1;
        match case {
            Case::Atoms { op, left } => {
                for right in &sides {
                    let text = format!("{} {} {}", sides[*left], OPS[*op], right);
                    let Some((w, uses_extra)) = parse_marker(&text) else { panic!("harness: {text}") };
                    rep.traces += 1;
                    rep.case(&text, true);
                    let m = match guard(|| PackageRequirement::try_from(format!("x;{text}")).map_err(|e| e.to_string())) {
                        Ok(Ok(r)) => r.env_marker_expr.clone().unwrap(),
                        other => {
                            rep.violation(key.clone(), format!("{text:?}: {other:?}"));
                            return;
                        }
                    };
                    let alone = guard(|| StandaloneMarkerExpr::try_from(text.as_str()).map_err(|e| e.to_string()));
                    match alone {
                        Ok(Ok(a)) if !uses_extra && a.0 == m => (),
                        Ok(Err(_)) if uses_extra => (),
                        x => rep.violation(key.clone(), format!("{text:?} alone: {x:?}")),
                    }
                    let vars: BTreeSet<&str> = ["python_version", "os_name", "extra"].into_iter().filter(|v| text.contains(v)).collect();
                    let mut envs = vec![base_env()];
                    for v in vars {
                        let vals: Vec<&'static str> = if v == "extra" { vec!["", "foo-bar", "x", "linux"] } else { VALUES.to_vec() };
                        envs = envs
                            .into_iter()
                            .flat_map(|e| {
                                vals.iter().map(move |x| {
                                    let mut e = e.clone();
                                    e.insert(VARS.iter().find(|n| **n == v).unwrap(), x);
                                    e
                                })
                            })
                            .collect();
                    }
                    for env in envs {
                        rep.outcome(match eval_ref(&w, &env) {
                            Answer::Is(true) => "true",
                            Answer::Is(false) => "false",
                            Answer::Error => "error",
                            Answer::Any => "not judged",
                        });
                        rep.evaluations += 1;
                        check_eval(&m, &w, &env, &text, rep, &key);
                    }
                    if rep.violations.len() > 5 {
                        return;
                    }
                }
            }
            Case::Bool(a, b) => {
                let mut level = vec![vec![*a, *b]];
                for d in 2..=bdepth {
                    for seq in &level {
                        for glue in [" ", ""] {
                            let text: Vec<&str> = seq.iter().map(|t| if *t < 2 { ATOM[*t] } else { BTOK[*t] }).collect();
                            let text = text.join(glue);
                            let want = parse_marker(&text);
                            rep.traces += 1;
                            rep.case(&text, want.is_some());
                            let got = guard(|| StandaloneMarkerExpr::try_from(text.as_str()).map_err(|e| e.to_string()));
                            match (want, got) {
                                (_, Err(p)) => rep.violation(key.clone(), format!("{text:?}: {p}")),
                                (None, Ok(Err(_))) => rep.outcome("refused"),
                                (None, Ok(Ok(m))) => rep.violation(key.clone(), format!("{text:?} is accepted as {m}")),
                                (Some(_), Ok(Err(e))) => rep.violation(key.clone(), format!("{text:?} is refused: {e}")),
                                (Some((w, _)), Ok(Ok(m))) => {
                                    rep.outcome("accepted");
                                    let printed = m.to_string();
                                    let m2 = StandaloneMarkerExpr::try_from(printed.as_str());
                                    if m2.as_ref().ok() != Some(&m) {
                                        rep.violation(key.clone(), format!("{text:?} prints as {printed}, which reads back as {m2:?}"));
                                    }
                                    for (o, s) in [("a", "b"), ("a", "x"), ("x", "b"), ("x", "x")] {
                                        let mut env = base_env();
                                        env.insert("os_name", o);
                                        env.insert("sys_platform", s);
                                        check_eval(&m.0, &w, &env, &text, rep, &key);
                                        // nobody says what it is
                                        for gone in [&["os_name"][..], &["sys_platform"], &["os_name", "sys_platform"]] {
                                            let mut env = env.clone();
                                            gone.iter().for_each(|v| drop(env.remove(v)));
                                            check_eval(&m.0, &w, &env, &text, rep, &key);
                                        }
                                    }
                                }
                            }
                        }
                        if rep.violations.len() > 5 {
                            return;
                        }
                    }
                    if d < bdepth {
                        level = level
                            .iter()
                            .flat_map(|s| {
                                (0..BTOK.len()).map(move |t| {
                                    let mut s = s.clone();
                                    s.push(t);
                                    s
                                })
                            })
                            // a longer text can only be in the grammar if its beginning may be: prune
                            // two atoms or two operators in a row after the first fault is seen once
                            .filter(|s| faults(s) <= 1)
                            .collect();
                    }
                }
            }
            Case::Req(a, b) => {
                let mut level = vec![format!("{}{}", RTOK[*a], RTOK[*b])];
                if *a == 0 && *b == 0 {
                    level.extend(RTOK.iter().map(|t| t.to_string()));
                    level.push(String::new());
                }
                for d in 2..=rdepth {
                    for t in &level {
                        reference_check(t, rep, &key);
                        if rep.violations.len() > 5 {
                            return;
                        }
                    }
                    if d < rdepth {
                        level = level.iter().flat_map(|s| RTOK.iter().map(move |t| format!("{s}{t}"))).collect();
                    }
                }
                if (*a, *b) == (0, 3) {
                    rep.sample(json!({"texts_beginning_with": "foo[", "last": level.last()}));
                    // complete requirements: every part in every notation
                    for name in ["foo", "A.b_c", "x1"] {
                        for extras in ["", "[]", "[x]", " [ x , Y-z.w ]", "[x,y,z]"] {
                            for spec in ["", ">=1", " ( >=1 , <2 )", "(~= 1.4.2, != 1.5.*)", "==1.0+local.1 ,<3", " > 1!1.0a1"] {
                                for mk in ["", ";os_name=='a'", " ; (os_name == 'a' or sys_platform == \"b\") and python_version not in '2.6 2.7'", "; extra == 'b' and os_name != 'a'", "; 'x' not   in extra or os.name == 'a'"] {
                                    for ws in ["", " ", "\t "] {
                                        reference_check(&format!("{ws}{name}{extras}{spec}{mk}{ws}"), rep, &key);
                                    }
                                }
                            }
                        }
                    }
                }
            }
            Case::Variables => {
                let names: Vec<(&str, &'static str)> = VARS.iter().map(|v| (*v, *v)).chain(ALIASES.iter().copied()).collect();
                let mut texts: Vec<String> = vec![];
                for (n, _) in &names {
                    texts.push(format!("{n} == 'zz'"));
                    texts.push(format!("'zz'=={n}"));
                    texts.push(format!("{n} in 'a zz'"));
                    for (k, _) in &names {
                        texts.push(format!("{n} == {k}"));
                        texts.push(format!("{n}=='zz' or {k}!='0'"));
                    }
                    // names of nothing
                    for odd in [format!("{n}x"), format!("x{n}"), n.replace(['.', '_'], ""), n.replace('.', "-"), n.replace('_', "."), n.replace('.', "_"), n.to_uppercase(), n[..n.len() - 1].to_string(), format!("{n}."), format!("{n} {n}"), format!("'{n}'")] {
                        texts.push(format!("{odd} == 'zz'"));
                        texts.push(format!("'zz' == {odd}"));
                    }
                }
                for text in &texts {
                    reference_check(&format!("foo; {text}"), rep, &key);
                    let Some((w, _)) = parse_marker(text) else { continue };
                    let Ok(Ok(r)) = guard(|| PackageRequirement::try_from(format!("foo; {text}").as_str()).map_err(|e| e.to_string())) else { continue };
                    let m = r.env_marker_expr.clone().unwrap();
                    for v in VARS {
                        let mut env = base_env();
                        env.insert(v, "zz");
                        check_eval(&m, &w, &env, text, rep, &key);
                        env.remove(v);
                        check_eval(&m, &w, &env, text, rep, &key);
                    }
                    if rep.violations.len() > 5 {
                        return;
                    }
                }
            }
            Case::Chars => {
                for c in (0u32..0x180).chain([0x2028, 0x1F600]).filter_map(char::from_u32) {
                    for q in ['\'', '"'] {
                        for text in [format!("foo; os_name == {q}a{c}b{q}"), format!("foo; os_name == {q}{c}{q}"), format!("foo{c}"), format!("foo{c}x"), format!("{c}foo"), format!("foo[x{c}y]"), format!("foo>=1{c}2")] {
                            reference_check(&text, rep, &key);
                        }
                    }
                }
            }
            Case::Nesting => {
                for n in [1usize, 2, 3, 5, 8, 10, 15, 20, 30, 45] {
                    for (a, b) in [("(", ")"), ("( ", " )"), ("os_name=='a' and (", ")"), ("(", ") or os_name=='a'")] {
                        let text = format!("foo; {}os_name == 'a'{}", a.repeat(n), b.repeat(n));
                        reference_check(&text, rep, &key);
                    }
                    let text = format!("foo; {}os_name == 'a'", "os_name == 'a' and os_name == 'b' or ".repeat(n));
                    reference_check(&text, rep, &key);
                }
                // far beyond anything sensible: an answer, not a crash; what is accepted prints and reads back
                for n in [90usize, 100, 150, 300, 1000, 30_000, 200_000] {
                    for (a, b) in [("(", ")"), ("(", ""), ("os_name=='a' and ", ""), ("os_name=='a' or(", ")"), ("", " or os_name=='a'"), ("(", ")and os_name=='a'")] {
                        let text = format!("foo; {}os_name == 'a'{}", a.repeat(n), b.repeat(n));
                        rep.traces += 1;
                        match guard(|| PackageRequirement::try_from(text.as_str()).map_err(|e| e.to_string())) {
                            Ok(Ok(r)) => {
                                rep.outcome("deep: accepted");
                                match guard(|| PackageRequirement::try_from(r.to_string().as_str()).map_err(|e| e.to_string())) {
                                    Ok(Ok(r2)) if r2 == r => (),
                                    x => rep.violation(key.clone(), format!("a marker with {n} times {a:?} {b:?} does not read back: {:?}", x.is_ok())),
                                }
                            }
                            Ok(Err(_)) => rep.outcome("deep: refused"),
                            Err(p) => rep.violation(key.clone(), format!("{n} times {a:?} {b:?}: {p}")),
                        }
                    }
                }
            }
        }
    });
    let _ = full;
    finish(ctx, Level {
        level: "model_checking",
        rule: "every comparison of two sides from a set of variables and literals with every operator, in every assignment of a set of values; every boolean text of up to the bound of tokens with at most one fault, with and without spaces, in all assignments; every requirement text of up to the bound of tokens (also as user and python requirement) and every combination of complete parts; every character in every position; every variable by each of its names, and names of nothing, with each variable set or without a value; all against a hand-written recursive-descent parser and evaluator; printed forms read back; states = cases, transitions = evaluations compared; distinct = distinct texts",
        assumptions: &[
            "the reference follows the PEP 508 grammar with chained and/or; === and direct URL references are unsupported by design and not judged",
            "comparisons where PEP 440's text and packaging differ, and extras whose names read as versions, are not judged",
        ],
    })
}

/// How many adjacent token pairs cannot occur in any marker.
fn faults(s: &[usize]) -> usize {
    let mut n = 0;
    for w in s.windows(2) {
        let opens = |t: usize| matches!(t, 2 | 4 | 5);
        let starts = |t: usize| matches!(t, 0 | 1 | 2);
        if opens(w[0]) != starts(w[1]) {
            n += 1;
        }
    }
    n
}
