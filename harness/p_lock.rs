//! P23: lock files and the values inside them round-trip.
use std::collections::{HashMap, HashSet};

use serde_json::{json, Value as J};

use super::core::*;
use crate::prelude::*;
use crate::resolve::*;

const H1: &str = "sha256=9c7ed1509d1809656c86aa1201fde2650ec056ab79f6546ba8205f6e42cff949";
const H2: &str = "sha256=c27c231e66336183c484fbfe080fa6cc954149366c15dc21db8b7290081ec7b8";
const H3: &str = "sha512=c27c231e66336183c484fbfe080fa6cc954149366c15dc21db8b7290081ec7b8c27c231e66336183c484fbfe080fa6cc954149366c15dc21db8b7290081ec7b8";

const NAMES: &[&str] = &["foo", "Foo.Bar__baz-9", "a", "0", "cpython_unofficial"];
const VERSIONS: &[&str] = &["1.0", "0", "1.0.0", "1!2.0rc1.post3.dev4+local.5", "2023.1.1.post0", "2147483648.0", "1.0.dev0", "1.0a0", "3.11.2+ubuntu-1.2"];
const SPECS: &[&str] = &["", ">=3.7", " >= 3.6 , != 3.0.* ,<4", "(==1.0+local.1)", "~=1.2", "<1!0", "===", "==1.*,>0.dev0", "!=1.0.POST1", ">1 "];
const EXTRAS: &[&str] = &["", "[a]", "[a, B_c.d]", "[]", "[a,a]"];
const PROVENANCE: &[&str] = &["https://files.example/foo-1.0.tar.gz#sha256=00", "", "\"quoted\" \\ back\nnew \u{e9}\u{1f980} \u{7f}\0"];

fn leaves(full: bool) -> Vec<marker::EnvMarkerExpr> {
    use marker::*;
    let vars = ["python_version", "python_full_version", "os_name", "sys_platform", "platform_release", "platform_system", "platform_version", "platform_machine", "platform_python_implementation", "implementation_name", "implementation_version"];
    let lits = ["3.7", "", "it's", "say \"hi\"", " or (x and 'y') ", "a, b; #", "linux"];
    let ops = [Op::Compare(CompareOp::LessThanEqual), Op::Compare(CompareOp::StrictlyLessThan), Op::Compare(CompareOp::NotEqual), Op::Compare(CompareOp::Equal), Op::Compare(CompareOp::GreaterThanEqual), Op::Compare(CompareOp::StrictlyGreaterThan), Op::Compare(CompareOp::Compatible), Op::In, Op::NotIn];
    let mut values: Vec<Value> = vars.iter().map(|v| Value::Variable(v.to_string())).collect();
    values.extend(lits.iter().map(|l| Value::Literal(l.to_string())));
    let mut out = vec![];
    for (i, l) in values.iter().enumerate() {
        for (j, r) in values.iter().enumerate() {
            for (k, op) in ops.iter().enumerate() {
                if full || (i + j + k) % 3 == 0 || i >= vars.len() || j >= vars.len() {
                    out.push(EnvMarkerExpr::Operator { op: *op, lhs: l.clone(), rhs: r.clone() });
                }
            }
        }
    }
    out
}

fn join(and: bool, a: &marker::EnvMarkerExpr, b: &marker::EnvMarkerExpr) -> marker::EnvMarkerExpr {
    let (a, b) = (Box::new(a.clone()), Box::new(b.clone()));
    if and {
        marker::EnvMarkerExpr::And(a, b)
    } else {
        marker::EnvMarkerExpr::Or(a, b)
    }
}

/// Long and deep markers, as large as what the parser accepts.
fn big_texts() -> Vec<String> {
    let c = |i: usize| format!("python_version < '{i}'");
    let mut v = vec![];
    for n in [2, 50, 99, 100] {
        let all: Vec<String> = (0..n).map(c).collect();
        v.push(all.join(" and "));
        v.push(all.join(" or "));
        let mixed = |first: &str, second: &str| {
            let mut s = c(0);
            for i in 1..n {
                s += if i % 2 == 0 { first } else { second };
                s += &c(i);
            }
            s
        };
        v.push(mixed(" and ", " or "));
        // nested to the left and to the right, alternating
        let mut left = c(0);
        let mut right = c(0);
        for i in 1..n {
            let op = if i % 2 == 0 { "and" } else { "or" };
            left = format!("({left}) {op} {}", c(i));
            right = format!("{} {op} ({right})", c(i));
        }
        v.push(left);
        v.push(right);
        // in many parentheses of its own
        v.push(format!("{}{}{}", "(".repeat(n), c(0), ")".repeat(n)));
    }
    v
}

/// What equality of a type does not look at must come back as well: compare the printed forms.
fn text_round<T>(text: &str, rep: &mut Rep, key: &str) -> Option<T>
where
    T: std::fmt::Display + PartialEq + std::fmt::Debug + for<'a> TryFrom<&'a str, Error = eyre::Report> + Serialize + for<'a> Deserialize<'a>,
{
    rep.evaluations += 1;
    rep.traces += 1;
    let v = match guard(|| T::try_from(text)) {
        Err(p) => {
            rep.violation(format!("{key} {text:?}"), p);
            return None;
        }
        Ok(Err(_)) => {
            rep.outcome("refused");
            return None;
        }
        Ok(Ok(v)) => v,
    };
    value_round(&v, rep, &format!("{key} {text:?}"));
    Some(v)
}

fn value_round<T>(v: &T, rep: &mut Rep, key: &str)
where
    T: std::fmt::Display + PartialEq + std::fmt::Debug + for<'a> TryFrom<&'a str, Error = eyre::Report> + Serialize + for<'a> Deserialize<'a>,
{
    rep.transitions += 1;
    let printed = v.to_string();
    let bad = |rep: &mut Rep, how: &str, x: String| rep.violation(key.to_string(), format!("{v:?} prints as {printed:?}, which {how} {x}"));
    match guard(|| T::try_from(printed.as_str())) {
        Ok(Ok(w)) if w == *v && w.to_string() == printed => {}
        x => return bad(rep, "reads as", format!("{x:?}")),
    }
    match guard(|| serde_json::to_string(v).map(|s| (serde_json::from_str::<T>(&s), s))) {
        Ok(Ok((Ok(w), _))) if w == *v && w.to_string() == printed => rep.outcome("round trip"),
        x => bad(rep, "deserializes as", format!("{x:?}")),
    }
}

struct Pools {
    pins: Vec<PinnedPackage>,
    metas: Vec<WheelResolveMetadata>,
    markers: Vec<(StandaloneMarkerExpr, bool)>,
}

fn parse<T: std::str::FromStr>(s: &str) -> T
where
    T::Err: std::fmt::Debug,
{
    s.parse().unwrap_or_else(|e| panic!("{s:?}: {e:?}"))
}

fn pools() -> Pools {
    let hashes: Vec<Vec<ArtifactHash>> = vec![vec![], vec![parse(H1)], vec![parse(H2), parse(H1), parse(H3)]];
    let mut pins = vec![];
    for (i, n) in NAMES.iter().enumerate() {
        for (j, v) in VERSIONS.iter().enumerate() {
            for (k, h) in hashes.iter().enumerate() {
                if (i + j + k) % 3 == 0 {
                    pins.push(PinnedPackage { name: parse(n), version: parse(v), hashes: h.clone() });
                }
            }
        }
    }
    let reqs: Vec<Vec<PackageRequirement>> = vec![
        vec![],
        vec![parse("bar")],
        vec![parse("Bar_x[q,Z.z] >=1.0, !=2.*; python_version < '3' or (os_name == \"it's\" and extra == 'q')"), parse("bar~=1.0"), parse("bar~=1.0")],
    ];
    let mut metas = vec![];
    for p in PROVENANCE {
        for r in &reqs {
            for s in ["", ">=3.7", ">=3.6, !=3.0.*"] {
                for x in [&[][..], &["q"][..], &["q", "Z.z", "a"][..]] {
                    metas.push(WheelResolveMetadata {
                        provenance: p.to_string(),
                        inner: WheelResolveMetadataInner { requires_dist: r.clone(), requires_python: parse(s), extras: x.iter().map(|x| parse(x)).collect() },
                    });
                }
            }
        }
    }
    let markers = ["python_version < '3'", "os_name == 'posix' and python_version >= '3.7'", "'linux' in sys_platform or (platform_machine not in 'x' and python_full_version == '3')", "os_name != 'say \"hi\"'", "platform_version ~= ''"]
        .iter()
        .enumerate()
        .map(|(i, m)| (parse(m), i % 2 == 0))
        .collect();
    Pools { pins, metas, markers }
}

fn same_lock(a: &Blueprint, b: &Blueprint) -> std::result::Result<(), String> {
    let pin = |p: &PinnedPackage| (p.name.as_given().to_string(), p.version.to_string(), p.hashes.clone());
    if pin(&a.pybi) != pin(&b.pybi) || a.pybi != b.pybi {
        return Err(format!("the interpreter differs: {:?} vs {:?}", a.pybi, b.pybi));
    }
    if a.wheels.len() != b.wheels.len() {
        return Err(format!("{} packages instead of {}", b.wheels.len(), a.wheels.len()));
    }
    for ((p, m), (q, n)) in a.wheels.iter().zip(&b.wheels) {
        let texts = |m: &WheelResolveMetadata| {
            let mut x: Vec<String> = m.inner.extras.iter().map(|e| e.as_given().to_string()).collect();
            x.sort();
            (m.provenance.clone(), m.inner.requires_dist.iter().map(|r| r.to_string()).collect::<Vec<_>>(), m.inner.requires_python.to_string(), x)
        };
        if p != q || pin(p) != pin(q) || m.inner != n.inner || texts(m) != texts(n) {
            return Err(format!("{p:?} {m:?} became {q:?} {n:?}"));
        }
    }
    if a.marker_expressions != b.marker_expressions {
        return Err(format!("markers {:?} became {:?}", a.marker_expressions, b.marker_expressions));
    }
    Ok(())
}

fn lock_round(b: &Blueprint) -> std::result::Result<(), String> {
    let e = |x: serde_json::Error| x.to_string();
    let text = serde_json::to_string(b).map_err(e)?;
    same_lock(b, &serde_json::from_str(&text).map_err(|x| format!("{x} in {text}"))?).map_err(|m| format!("{m} (json)"))?;
    let pretty = serde_json::to_vec_pretty(b).map_err(e)?;
    same_lock(b, &serde_json::from_reader(pretty.as_slice()).map_err(e)?).map_err(|m| format!("{m} (json reader)"))?;
    same_lock(b, &serde_json::from_value(serde_json::to_value(b).map_err(e)?).map_err(e)?).map_err(|m| format!("{m} (json value)"))?;
    let toml = toml_edit::ser::to_string_pretty(b).map_err(|x| x.to_string())?;
    same_lock(b, &toml_edit::de::from_str(&toml).map_err(|x| format!("{x} in {toml}"))?).map_err(|m| format!("{m} (toml)"))
}

fn brief_round(b: &Brief) -> std::result::Result<(), String> {
    let view = |b: &Brief| {
        (b.python.to_string(), b.python.name.as_given().to_string(), b.requirements.iter().map(|r| r.to_string()).collect::<Vec<_>>(), NAMES.iter().map(|n| b.allow_pre.allow_pre_for(&parse(n))).collect::<Vec<_>>(), matches!(b.allow_pre, AllowPre::All))
    };
    let same = |how: &str, c: Brief| if view(&c) == view(b) && c.python == b.python && c.requirements == b.requirements { Ok(()) } else { Err(format!("{b:?} became {c:?} ({how})")) };
    let e = |x: serde_json::Error| x.to_string();
    let text = serde_json::to_string(b).map_err(e)?;
    same("json", serde_json::from_str(&text).map_err(|x| format!("{x} in {text}"))?)?;
    same("json reader", serde_json::from_reader(text.as_bytes()).map_err(|x| format!("{x} in {text}, from a reader"))?)?;
    same("json value", serde_json::from_value(serde_json::to_value(b).map_err(e)?).map_err(|x| format!("{x} in {text}, from a value"))?)?;
    let toml = toml_edit::ser::to_string(b).map_err(|x| x.to_string())?;
    same("toml", toml_edit::de::from_str(&toml).map_err(|x| format!("{x} in {toml}"))?)
}

/// Is what was read (and written again) what the text says? Strings may come out in a normal form.
fn says(out: &J, text: &J) -> bool {
    let norm = |s: &str| -> Vec<String> {
        let mut v = vec![s.to_string()];
        fn add<T: std::fmt::Display + for<'a> TryFrom<&'a str, Error = eyre::Report>>(s: &str, v: &mut Vec<String>) {
            if let Ok(x) = T::try_from(s) {
                v.push(x.to_string());
            }
        }
        add::<Version>(s, &mut v);
        add::<ArtifactHash>(s, &mut v);
        add::<PackageRequirement>(s, &mut v);
        add::<Specifiers>(s, &mut v);
        add::<StandaloneMarkerExpr>(s, &mut v);
        v
    };
    match (out, text) {
        (J::Object(a), J::Object(b)) => {
            a.iter().all(|(k, v)| b.iter().any(|(k2, v2)| norm(k2).contains(k) && says(v, v2)))
        }
        (J::Array(a), J::Array(b)) => {
            (a.len() == b.len() && a.iter().zip(b).all(|(x, y)| says(x, y)))
                // a set
                || (a.iter().all(|x| b.iter().any(|y| says(x, y))) && b.iter().all(|y| a.iter().any(|x| says(x, y))) && b.iter().all(|x| x.is_string()) && a.len() <= b.len())
        }
        (J::String(a), J::String(b)) => norm(b).contains(a),
        (a, b) => a == b,
    }
}

fn paths(v: &J, at: Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    let mut go = |k: String, x: &J| {
        let mut p = at.clone();
        p.push(k);
        paths(x, p, out);
    };
    match v {
        J::Object(m) => m.iter().for_each(|(k, x)| go(k.clone(), x)),
        J::Array(a) => a.iter().enumerate().for_each(|(i, x)| go(i.to_string(), x)),
        _ => {}
    }
}

fn at<'a>(v: &'a mut J, p: &[String]) -> &'a mut J {
    match p.split_first() {
        None => v,
        Some((k, rest)) => match v {
            J::Object(m) => at(m.get_mut(k).unwrap(), rest),
            J::Array(a) => at(&mut a[k.parse::<usize>().unwrap()], rest),
            _ => unreachable!(),
        },
    }
}

#[derive(Clone, Debug)]
enum Case {
    Req(usize),
    Simple,
    Big,
    Leaf(usize),
    Tree(usize),
    Lock(usize),
    Brief(usize),
    Struct(&'static str),
    Chars(&'static str, usize),
}

fn sample(p: &Pools) -> Blueprint {
    Blueprint {
        pybi: p.pins[2].clone(),
        wheels: vec![(p.pins[7].clone(), p.metas[20].clone()), (p.pins[0].clone(), p.metas[0].clone())],
        marker_expressions: p.markers.iter().take(3).cloned().collect(),
    }
}
fn sample_brief() -> Brief {
    Brief { python: parse("cpython_unofficial >= 3, <3.11"), requirements: vec![parse("trio"), parse("foo[a,b]==1.*; python_version < '3'")], allow_pre: AllowPre::Some([parse("foo")].into_iter().collect::<HashSet<PackageName>>()) }
}
fn sample_text(which: &str, p: &Pools) -> String {
    match which {
        "lock" => {
            // one package with every kind of content
            let mut b = sample(p);
            b.wheels[0].1 = WheelResolveMetadata { provenance: "p".into(), inner: WheelResolveMetadataInner { requires_dist: vec![parse("b[x]>=1; os_name == 'q'")], requires_python: parse(">=3"), extras: [parse("x")].into_iter().collect() } };
            b.wheels.truncate(1);
            b.wheels[0].0.hashes = vec![parse(H1)];
            b.marker_expressions = p.markers.iter().take(1).cloned().collect();
            serde_json::to_string(&b).unwrap()
        }
        _ => serde_json::to_string(&sample_brief()).unwrap(),
    }
}

/// What reading gives, written again: None if refused.
fn read(which: &str, text: &str) -> std::result::Result<Option<J>, String> {
    guard(|| match which {
        "lock" => serde_json::from_str::<Blueprint>(text).ok().map(|b| serde_json::to_value(b).unwrap()),
        _ => serde_json::from_str::<Brief>(text).ok().map(|b| serde_json::to_value(b).unwrap()),
    })
}

pub fn p23(mut ctx: Ctx) -> i32 {
    let full = ctx.thorough();
    // everything in the pools is valid
    let p = match guard(pools) {
        Ok(p) => p,
        Err(m) => {
            ctx.rep.evaluations += 1;
            ctx.rep.violation("valid values".to_string(), m);
            return finish(ctx, LEVEL);
        }
    };
    let lv = leaves(full);
    let step = ctx.pick(9, 4);
    let mut cases = vec![Case::Simple, Case::Big, Case::Struct("lock"), Case::Struct("brief")];
    cases.extend((0..NAMES.len() * EXTRAS.len()).map(Case::Req));
    cases.extend((0..lv.len()).map(Case::Leaf));
    cases.extend((0..lv.len()).step_by(step * 5).map(Case::Tree));
    cases.extend((0..p.pins.len()).map(Case::Lock));
    cases.extend((0..4).map(Case::Brief));
    for which in ["lock", "brief"] {
        cases.extend((0..=sample_text(which, &p).chars().count()).map(|i| Case::Chars(which, i)));
    }
    ctx.run_cases(&cases, |c| format!("{c:?}"), |c, rep, _| {
        let key = format!("{c:?}");
        rep.states += 1;
        rep.case(&key, true);
        match c {
            Case::Simple => {
                for n in NAMES {
                    rep.evaluations += 1;
                    let v: PackageName = parse(n);
                    let x: Extra = parse(n);
                    let t = serde_json::to_string(&(&v, &x)).unwrap();
                    match serde_json::from_str::<(PackageName, Extra)>(&t) {
                        Ok((w, y)) if w == v && y == x && w.as_given() == v.as_given() && y.as_given() == x.as_given() => {}
                        r => rep.violation(format!("{key} {n}"), format!("{t} reads as {r:?}")),
                    }
                }
                // everything P11 and P17 cover in depth, once more through serde
                for v in VERSIONS {
                    if text_round::<Version>(v, rep, &key).is_none() {
                        rep.violation(format!("{key} {v}"), "refused".to_string());
                    }
                    for w in VERSIONS {
                        for op in ["<=", "<", "!=", "==", ">=", ">", "~="] {
                            text_round::<Specifiers>(&format!("{op}{v}"), rep, &key);
                            text_round::<Specifiers>(&format!("{op} {v} , {op}{w}.*"), rep, &key);
                        }
                    }
                }
                for s in SPECS {
                    text_round::<Specifiers>(s, rep, &key);
                }
                for h in [H1, H2, H3, "sha256=C27C231E66336183C484FBFE080FA6CC954149366C15DC21DB8B7290081EC7B8"] {
                    if text_round::<ArtifactHash>(h, rep, &key).is_none() {
                        rep.violation(format!("{key} {h}"), "refused".to_string());
                    }
                }
            }
            Case::Big => {
                for m in big_texts() {
                    match text_round::<StandaloneMarkerExpr>(&m, rep, &key) {
                        None => rep.violation(format!("{key} {m}"), "a marker of at most 100 clauses is refused".to_string()),
                        Some(e) => {
                            let r: PackageRequirement = parse(&format!("x; {e}"));
                            value_round(&r, rep, &format!("{key} req {m}"));
                            let mut b = sample(&p);
                            b.marker_expressions.insert(e, true);
                            b.wheels[0].1.inner.requires_dist.push(r);
                            if let Err(m) = guard(|| lock_round(&b)).and_then(|x| x) {
                                rep.violation(format!("{key} lock {}", b.marker_expressions.len()), m);
                            }
                        }
                    }
                }
            }
            Case::Req(i) => {
                let (n, x) = (NAMES[i % NAMES.len()], EXTRAS[i / NAMES.len()]);
                for s in SPECS {
                    for m in ["", "; python_version < '3'", " ;os.name=='a' or(os_name==\"b\"and extra=='c')", "; 'it\"s' == extra", "; python_implementation in \"it's\""] {
                        let t = format!("{n}{x}{s}{m}");
                        text_round::<PackageRequirement>(&t, rep, &key);
                        text_round::<UserRequirement>(&t, rep, &key);
                        text_round::<PythonRequirement>(&t, rep, &key);
                    }
                }
            }
            Case::Leaf(i) => {
                rep.evaluations += 1;
                value_round(&StandaloneMarkerExpr(lv[*i].clone()), rep, &key);
            }
            Case::Tree(i) => {
                let a = &lv[*i];
                for b in lv.iter().step_by(step * 3) {
                    for and in [true, false] {
                        let ab = join(and, a, b);
                        rep.evaluations += 1;
                        value_round(&StandaloneMarkerExpr(ab.clone()), rep, &format!("{key} {and} {b}"));
                        for c in lv.iter().step_by(step * 29) {
                            for and2 in [true, false] {
                                for e in [join(and2, &ab, c), join(and2, c, &ab)] {
                                    rep.evaluations += 1;
                                    value_round(&StandaloneMarkerExpr(e), rep, &format!("{key} {and} {b} {and2} {c}"));
                                }
                            }
                        }
                    }
                }
            }
            Case::Lock(i) => {
                let nm = p.markers.len();
                let mut wheels: Vec<Vec<(PinnedPackage, WheelResolveMetadata)>> = vec![vec![]];
                for (j, m) in p.metas.iter().enumerate() {
                    wheels.push(vec![(p.pins[(i + j) % p.pins.len()].clone(), m.clone())]);
                    if full || j % 4 == 0 {
                        for (k, n) in p.metas.iter().enumerate().skip(j % 5).step_by(5) {
                            wheels.push(vec![(p.pins[(i + j) % p.pins.len()].clone(), m.clone()), (p.pins[(i + k + 1) % p.pins.len()].clone(), n.clone())]);
                        }
                    }
                }
                for (j, w) in wheels.iter().enumerate() {
                    for mask in 0..(1usize << nm) {
                        if !full && mask % 5 != j % 5 {
                            continue;
                        }
                        let marker_expressions: HashMap<_, _> = p.markers.iter().enumerate().filter(|(x, _)| mask >> x & 1 == 1).map(|(_, m)| m.clone()).collect();
                        let b = Blueprint { pybi: p.pins[*i].clone(), wheels: w.clone(), marker_expressions };
                        rep.evaluations += 1;
                        rep.traces += 1;
                        rep.transitions += 4;
                        match guard(|| lock_round(&b)).and_then(|x| x) {
                            Ok(()) => rep.outcome("lock round trip"),
                            Err(m) => {
                                rep.violation(format!("{key} wheels {j} markers {mask}"), m);
                                return;
                            }
                        }
                    }
                }
            }
            Case::Brief(i) => {
                let names: Vec<PackageName> = NAMES.iter().map(|n| parse(n)).collect();
                let allow = match i {
                    0 => AllowPre::All,
                    n => AllowPre::Some(names.iter().take((n - 1) * 2).cloned().collect()),
                };
                for py in ["cpython", "cpython_unofficial >= 3, < 3.11", "Py.py==3.*"] {
                    for reqs in [&[][..], &["trio"][..], &["foo[a,b]>=1,!=2.*; python_version < '3' or os_name == \"it's\"", "trio", "trio"][..]] {
                        let b = Brief { python: parse(py), requirements: reqs.iter().map(|r| parse(r)).collect(), allow_pre: allow.clone() };
                        rep.evaluations += 1;
                        rep.traces += 1;
                        rep.transitions += 4;
                        match guard(|| brief_round(&b)).and_then(|x| x) {
                            Ok(()) => rep.outcome("brief round trip"),
                            Err(m) => rep.violation(format!("{key} {py} {}", reqs.len()), m),
                        }
                    }
                }
            }
            Case::Struct(which) => {
                let base: J = serde_json::from_str(&sample_text(which, &p)).unwrap();
                let mut ps = vec![];
                paths(&base, vec![], &mut ps);
                for path in &ps {
                    let mut muts: Vec<(String, J)> = vec![];
                    for v in [J::Null, json!(1), json!(true), json!(""), json!("!"), json!("~"), json!([]), json!({}), json!([1]), json!(["foo"]), json!("foo"), json!(":all:"), json!({"foo": true}), json!([["foo"]])] {
                        let mut x = base.clone();
                        *at(&mut x, path) = v.clone();
                        muts.push((format!("{path:?} = {v}"), x));
                    }
                    if let Some((last, parent)) = path.split_last() {
                        let mut x = base.clone();
                        let deleted_must_fail = match at(&mut x, parent) {
                            J::Object(m) => {
                                m.remove(last);
                                // entries of a map and the list that may be absent are no loss
                                !parent.ends_with(&["marker-expressions".to_string()]) && last != "allow_pre"
                            }
                            J::Array(a) => {
                                a.remove(last.parse::<usize>().unwrap());
                                // a pair needs both parts
                                parent.len() == 2 && parent[0] == "wheels"
                            }
                            _ => unreachable!(),
                        };
                        if deleted_must_fail {
                            if let Ok(Some(o)) = read(which, &x.to_string()) {
                                rep.violation(format!("{key} {path:?} removed"), format!("{x} is accepted as {o}"));
                            }
                        }
                        muts.push((format!("{path:?} removed"), x));
                    }
                    for (what, x) in muts {
                        rep.evaluations += 1;
                        rep.transitions += 1;
                        match read(which, &x.to_string()) {
                            Ok(None) => rep.outcome("corrupt refused"),
                            Ok(Some(o)) if says(&o, &x) => rep.outcome("changed text read as it says"),
                            r => rep.violation(format!("{key} {what}"), format!("{x} is read as {r:?}")),
                        }
                    }
                }
            }
            Case::Chars(which, i) => {
                let t: Vec<char> = sample_text(which, &p).chars().collect();
                let mut edits: Vec<String> = vec![];
                let cut = |a: &[char], m: &str, b: &[char]| a.iter().collect::<String>() + m + &b.iter().collect::<String>();
                edits.push(t[..*i].iter().collect());
                if *i < t.len() {
                    edits.push(cut(&t[..*i], "", &t[i + 1..]));
                    edits.push(cut(&t[..=*i], &t[*i].to_string(), &t[i + 1..]));
                }
                for c in ["0", "1", "a", "Z", ".", "-", "!", "+", "*", "<", "=", "~", "(", ")", "[", "]", "{", "}", ",", ";", ":", "\"", "\\\"", "'", " ", "\\n", "\\u0000", "\u{e9}", "\\ud83e"] {
                    edits.push(cut(&t[..*i], c, &t[*i..]));
                    if *i < t.len() {
                        edits.push(cut(&t[..*i], c, &t[i + 1..]));
                    }
                }
                for x in edits {
                    rep.evaluations += 1;
                    rep.transitions += 1;
                    match read(which, &x) {
                        Ok(None) => rep.outcome("corrupt refused"),
                        Ok(Some(o)) => match serde_json::from_str::<J>(&x) {
                            Ok(j) if says(&o, &j) => {
                                // and what was read is itself a lock that round-trips
                                let again = read(which, &o.to_string());
                                if !matches!(&again, Ok(Some(y)) if says(y, &o)) {
                                    rep.violation(format!("{key} {x}"), format!("read as {o}, which reads as {again:?}"));
                                }
                                rep.outcome("changed text read as it says")
                            }
                            j => rep.violation(format!("{key} {x}"), format!("read as {o}, but says {j:?}")),
                        },
                        r => rep.violation(format!("{key} {x}"), format!("{r:?}")),
                    }
                }
            }
        }
        if !matches!(c, Case::Leaf(_) | Case::Chars(..)) {
            rep.sample(json!({"case": key}));
        }
    });
    finish(ctx, LEVEL)
}

const LEVEL: Level = Level {
        level: "model_checking",
        rule: "every value of the grids (names, versions, specifiers, hashes, requirements, all markers up to three comparisons, markers of the accepted maximum size) printed, read, compared and printed again, also through serde; every lock of the grid through four encodings; every node of a sample lock and brief replaced or removed, every single-character edit; states = cases, transitions = round trips and edits; distinct = distinct cases",
        assumptions: &["JSON and TOML stand for the formats a lock may be stored in", "in corrupted text a value may come back in its normal form"],
    };
