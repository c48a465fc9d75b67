//! P20: entry points and the commands made from them.
use std::collections::BTreeMap;
use std::io::Write;
use std::path::Path;

use serde_json::json;

use super::archive::Z;
use super::core::*;
use super::p_tree::*;
use crate::prelude::*;
use crate::trampolines::*;
use crate::tree::WriteTreeFS;

type Entry = (String, String, Option<String>);
type Groups = BTreeMap<String, Vec<Entry>>;

/// What the entry points specification says about a file
#[derive(Debug, PartialEq)]
enum Says {
    /// exactly this
    Is(Groups),
    /// this, or an error
    IfAny(Groups),
    Invalid,
    Open,
}

enum Line {
    Nothing,
    Header(String),
    Entry(Entry),
    Bad,
    Open,
}

fn ident(s: &str) -> bool {
    let mut c = s.chars();
    c.next().map_or(false, |c| c == '_' || c.is_alphabetic()) && c.all(|c| c == '_' || c.is_alphanumeric())
}

fn dotted(s: &str) -> bool {
    s.split('.').all(ident)
}

const WS: &[char] = &[' ', '\t', '\r'];

fn value(v: &str) -> Option<Option<(String, Option<String>)>> {
    let v = v.trim_matches(WS);
    let (v, extras) = match v.split_once('[') {
        Some((v, e)) => (v, Some(e)),
        None => (v, None),
    };
    let mut open = false;
    if let Some(e) = extras {
        let inner = match e.strip_suffix(']') {
            Some(i) => i,
            None => return Some(None),
        };
        // only lists of names are surely meant
        open = !inner.split(',').all(|x| !x.trim_matches(WS).is_empty() && x.trim_matches(WS).chars().all(|c| c.is_ascii_alphanumeric()));
    }
    let (m, o) = match v.split_once(':') {
        Some((m, o)) => (m, Some(o.trim_matches(WS))),
        None => (v, None),
    };
    let m = m.trim_matches(WS);
    if !dotted(m) || o.map_or(false, |o| !dotted(o)) {
        return Some(None);
    }
    if open {
        return None;
    }
    Some(Some((m.into(), o.map(|o| o.into()))))
}

fn line(l: &str) -> Line {
    let l = l.trim_matches(WS);
    if l.is_empty() || l.starts_with(['#', ';']) {
        return Line::Nothing;
    }
    // posy allows comments behind an entry, too
    let mut cut = l;
    let mut open = false;
    if let Some(i) = l.find(['#', ';']) {
        let clearly = l[..i].ends_with([' ', '\t']);
        let name_only = !l[..i].contains('=') && !l.starts_with('[');
        if clearly && !name_only {
            cut = l[..i].trim_matches(WS);
        } else if !clearly && name_only {
            // part of the name, if there is an =
            let Some((n, v)) = l.split_once('=') else { return Line::Bad };
            if n.split([' ', '\t']).any(|w| w.starts_with(['#', ';'])) || v.contains(['#', ';']) {
                return Line::Open;
            }
        } else {
            open = true;
        }
    }
    if open {
        return Line::Open;
    }
    if let Some(r) = cut.strip_prefix('[') {
        return match r.strip_suffix(']') {
            Some(g) if !g.is_empty() && g.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '.') => Line::Header(g.into()),
            Some("") => Line::Bad,
            None if !r.contains([']', '=']) => Line::Bad,
            _ => Line::Open,
        };
    }
    let Some((n, v)) = cut.split_once('=') else { return Line::Bad };
    let n = n.trim_matches(WS);
    if n.is_empty() {
        return Line::Bad;
    }
    match value(v) {
        None => Line::Open,
        Some(None) => Line::Bad,
        Some(Some((m, o))) => Line::Entry((n.into(), m, o)),
    }
}

fn reference(text: &str) -> Says {
    let mut out = Groups::new();
    let mut current: Option<String> = None;
    let mut seen = std::collections::BTreeSet::new();
    let (mut open, mut bad, mut lenient) = (false, false, false);
    let mut entries_here = 0;
    for raw in text.split('\n') {
        match line(raw) {
            Line::Nothing => (),
            Line::Open => open = true,
            Line::Bad => bad = true,
            Line::Header(g) => {
                lenient |= !seen.insert(g.clone()) || raw.starts_with(WS);
                current = Some(g);
                entries_here = 0;
            }
            Line::Entry(e) => {
                // could be a continuation
                lenient |= raw.starts_with(WS) && entries_here > 0;
                entries_here += 1;
                match &current {
                    None => bad = true,
                    Some(g) => {
                        let v = out.entry(g.clone()).or_default();
                        open |= v.iter().any(|x| x.0 == e.0);
                        v.push(e);
                    }
                }
            }
        }
        // a line that belongs to the one before is no entry of its own
        if raw.starts_with(WS) && matches!(line(raw), Line::Bad) && entries_here > 0 {
            open = true;
        }
    }
    match (bad, open, lenient) {
        // one line that is wrong in any case makes the file so
        (true, false, _) => Says::Invalid,
        (_, true, _) => Says::Open,
        (_, _, true) => Says::IfAny(out),
        _ => Says::Is(out),
    }
}

fn real(text: &str) -> std::result::Result<std::result::Result<Groups, String>, String> {
    guard(|| {
        crate::vocab::parse_entry_points(text).map_err(|e| format!("{e:#}")).map(|m| {
            m.into_iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| (k, v.into_iter().map(|e| (e.name, e.module, e.object)).collect())).collect()
        })
    })
}

fn sorted(mut g: Groups) -> Groups {
    for v in g.values_mut() {
        v.sort();
    }
    g
}

fn judge(text: &str) -> std::result::Result<&'static str, String> {
    let got = real(text).map_err(|m| format!("{text:?} panics: {m}"))?.map(sorted);
    let says = reference(text);
    match (&says, &got) {
        (Says::Open, _) => Ok("open"),
        (Says::Invalid, Err(_)) | (Says::IfAny(_), Err(_)) => Ok("refused"),
        (Says::Invalid, Ok(g)) => Err(format!("{text:?} is read as {g:?}, but is invalid")),
        (Says::Is(w), Err(e)) => Err(format!("{text:?} is refused ({e}); it declares {w:?}")),
        (Says::Is(w) | Says::IfAny(w), Ok(g)) => {
            if sorted(w.clone()) == *g {
                Ok("read")
            } else {
                Err(format!("{text:?} is read as {g:?} instead of {w:?}"))
            }
        }
    }
}

const LINES: &[&str] = &[
    "", " \t", "# comment", "; comment", "  # [x]",
    "[console_scripts]", "[gui_scripts]", "[pytest11]", "[a.b_c]", "[g] # comment", " [g]", "[g]\t", "[]", "[g", "[g] x",
    "foo = foomod:main", "foo=foomod:main", "foo\t=\tfoomod\t:\tmain\t", "a = b", "x = m:f", "x = m:f [e]", "foobar = foomod:main_bar [bar,baz]", "nbval = nbval.plugin", "n = a.b.c:d.e.f",
    " ind = m:f", "two words = m:f", "c# = m:f", "a;b = m:f", "a.b-c = m:f", "\u{e9} = \u{e9}t\u{e9}:\u{e0}", "foo = m2:f ; comment", "foo = m3:f # [x] = y", "X = M:F",
    "= m:f", "foo =", "foo", "a = b = c", "a = b:", "a = :b", "a = b::c", "a = b.:c", "a = .b:c", "a = b..c", "a = b:c.", "a = 1b:c", "a = b:1c", "a = b c", "a = b-c:d", "a = b:c d", "a = b:c [x", "a = b:c x]", "a : b", "a = b . c",
];

const TOKENS: &[&str] = &["a", "ab", "_1", "1", "\u{e9}", ".", ":", "[x]", "=", " ", "\t", "#", ";", "[", "]", ",", "\r", "-", "\n"];

#[derive(Clone, Debug)]
enum C {
    Lines(usize, usize),
    Tokens(usize, usize),
    Run(usize),
    Names(usize),
    Invoke(usize),
    /// wheels whose entry_points.txt begins with this line
    Wheel(usize),
}

const RETURNS: &[(&str, i32)] = &[
    ("None", 0), ("0", 0), ("3", 3), ("True", 1), ("False", 0), ("'text'", 1), ("256 + 4", 4), ("''", 1), ("[]", 1),
    ("sys.exit(5)", 5), ("sys.exit()", 0), ("1 / 0", 1), ("os._exit(9)", 9), ("-1", 255),
];

const ARGS: &[&[&str]] = &[
    &[], &[""], &["a"], &["a b", "c"], &["", "", "x"], &["-x", "--", "-c", "-"], &["*", "?", "~"], &["$HOME", "`id`", "$(id)", "${x}"],
    &["'", "\"", "\\", "'\\''"], &["\n", "\t", " "], &["\u{e9}\u{20ac}"], &["--version"], &["-m", "site"], &["1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11"], &["x.exe"], &["#", ";", "|", ">", "&"],
];

/// names of commands and where they must end up
const COMMANDS: &[&str] = &["foo", "Foo", "f", "bar.py", "foo-bar", "foo bar", "c#", "\u{e9}", "x.com", "..x", "a+b", "foo.sh", "1", "__main__", "sys", "python"];

const MODULES: &[(&str, &str, &str)] = &[
    // (module, attribute, where the function is)
    ("foo", "main", "foo.py"),
    ("m", "f", "m.py"),
    ("foo.cli", "main", "foo/cli.py"),
    ("foo.a.b.c", "main", "foo/a/b/c.py"),
    ("_x", "_", "_x.py"),
    ("foo", "Cls.meth", "foo.py"),
    ("foo", "obj.inner.run", "foo.py"),
    ("\u{e9}t\u{e9}", "\u{e0}", "\u{e9}t\u{e9}.py"),
    ("foo.__main__", "main", "foo/__main__.py"),
];

fn body(attr: &str, ret: &str) -> String {
    let parts: Vec<&str> = attr.split('.').collect();
    let mut s = String::from("import os, sys\n");
    let mut indent = String::new();
    for p in &parts[..parts.len() - 1] {
        s += &format!("{indent}class {p}:\n");
        indent += "    ";
    }
    if parts.len() > 1 {
        s += &format!("{indent}@staticmethod\n");
    }
    s += &format!("{indent}def {}():\n", parts[parts.len() - 1]);
    for l in [
        "log = open(os.environ['LOG'], 'a', encoding='utf-8')",
        "log.write(ascii([os.path.basename(sys.argv[0]), sys.argv[1:], sys.stdin.read(), __name__, os.environ.get('VIA')]) + '\\n')",
        "log.close()",
        &format!("return {ret}"),
    ] {
        s += &format!("{indent}    {l}\n");
    }
    s
}

struct Launch<'a> {
    name: &'a str,
    module: (&'a str, &'a str, &'a str),
    gui: bool,
    ret: &'a str,
    code: i32,
    args: &'a [&'a str],
    input: &'a str,
    how: usize,
}

fn py(s: &str) -> String {
    // python's ascii() of a string
    let q = if s.contains('\'') && !s.contains('"') { '"' } else { '\'' };
    let mut out = String::from(q);
    for c in s.chars() {
        match c {
            '\n' => out += "\\n",
            '\t' => out += "\\t",
            '\r' => out += "\\r",
            '\\' => out += "\\\\",
            c if c == q => {
                out.push('\\');
                out.push(c)
            }
            ' '..='~' => out.push(c),
            c if (c as u32) < 256 => out += &format!("\\x{:02x}", c as u32),
            c => out += &format!("\\u{:04x}", c as u32),
        }
    }
    out.push(q);
    out
}

/// Install a wheel with one entry point and start it
fn launch(dir: &Path, l: &Launch) -> std::result::Result<(), String> {
    let target = dir.join("en v");
    let _ = std::fs::remove_dir_all(&target);
    std::fs::create_dir(&target).unwrap();
    let (module, attr, file) = l.module;
    let group = if l.gui { "gui_scripts" } else { "console_scripts" };
    let mut zs = wheel_base(true);
    zs.push(Z::file("foo-1.0.dist-info/entry_points.txt", format!("[other]\nx = y.z\n[{group}]\n{} = {module}:{attr}\n[{}_scripts]\nsibling = sib.ling:go\n[{group}]\nlast = m.n:o [x]\n", l.name, if l.gui { "console" } else { "gui" })));
    zs.push(Z::file(file, body(attr, l.ret)));
    let platform = if l.how == 5 { ScriptPlatform::Both } else { ScriptPlatform::Unix };
    guard(|| unpack_wheel(&zs, &target, platform, &[("scripts", "bin"), ("purelib", "lib"), ("platlib", "plat"), ("data", ".")])).map_err(|m| format!("installing panics: {m}"))?.map_err(|e| format!("installing fails: {e:#}"))?;
    let mut made: Vec<String> = std::fs::read_dir(target.join("bin")).map_or(vec![], |d| d.map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect());
    made.sort();
    let mut should: Vec<String> = [l.name, "sibling", "last"].iter().flat_map(|n| if l.how == 5 { vec![n.to_string(), format!("{n}.exe")] } else { vec![n.to_string()] }).collect();
    should.sort();
    if made != should {
        return Err(format!("made the commands {made:?} instead of {should:?}"));
    }
    let exe = target.join("bin").join(l.name);
    // interpreters that say who they are
    let mut pythons = vec![];
    for k in ["POSY_PYTHON", "POSY_PYTHONW"] {
        let p = dir.join(format!("inter $preter {k}"));
        if !p.exists() {
            std::fs::write(&p, format!("#!/bin/sh\nVIA={k} exec /usr/bin/python3 \"$@\"\n")).unwrap();
            use std::os::unix::fs::PermissionsExt;
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        pythons.push((k, p));
    }
    let log = dir.join("log");
    let _ = std::fs::remove_file(&log);
    let via = if l.gui { "POSY_PYTHONW" } else { "POSY_PYTHON" };
    let mut argv0 = l.name.to_string();
    let mut c;
    match l.how {
        // by its whole path, by a path from its directory or another, by $PATH, through a link, as the Windows program
        0 => c = std::process::Command::new(&exe),
        1 => {
            c = std::process::Command::new(format!("./{}", l.name));
            c.current_dir(target.join("bin"));
        }
        2 => {
            c = std::process::Command::new(format!("bin/{}", l.name));
            c.current_dir(&target);
        }
        3 => {
            c = std::process::Command::new("/bin/sh");
            c.arg("-c").arg("\"$0\" \"$@\"").arg(l.name);
        }
        4 => {
            let link = target.join("a link");
            std::os::unix::fs::symlink(&exe, &link).unwrap();
            argv0 = "a link".into();
            c = std::process::Command::new(link);
        }
        _ => {
            c = std::process::Command::new(&pythons[l.gui as usize].1);
            c.arg(format!("{}.exe", exe.display()));
        }
    }
    c.args(l.args).env_clear().env("PATH", format!("{}:/usr/bin:/bin", target.join("bin").display())).env("PYTHONPATH", target.join("lib")).env("PYTHONDONTWRITEBYTECODE", "1").env("LOG", &log);
    for (k, p) in &pythons {
        c.env(k, p);
    }
    c.stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
    let mut child = c.spawn().map_err(|e| format!("cannot be started: {e}"))?;
    child.stdin.take().unwrap().write_all(l.input.as_bytes()).unwrap();
    let o = child.wait_with_output().unwrap();
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let got = std::fs::read_to_string(&log).unwrap_or_default();
    let args = l.args.iter().map(|a| py(a)).collect::<Vec<_>>().join(", ");
    let want = format!("[{}, [{args}], {}, {}, '{via}']\n", py(&argv0), py(l.input), py(module));
    if got != want {
        return Err(format!("ran {got:?} instead of {want:?}; it said {err:?}"));
    }
    if o.status.code() != Some(l.code) {
        return Err(format!("ended with {:?} instead of {}: {err:?}", o.status, l.code));
    }
    if l.how == 0 && l.args.is_empty() {
        // without an interpreter, it must not use another
        let _ = std::fs::remove_file(&log);
        let o = std::process::Command::new(&exe).env_clear().env("PATH", "/usr/bin:/bin").env("PYTHONPATH", target.join("lib")).env("LOG", &log).env(if l.gui { "POSY_PYTHON" } else { "POSY_PYTHONW" }, &pythons[0].1).output().unwrap();
        if o.status.success() || log.exists() {
            return Err("ran without being given an interpreter".into());
        }
    }
    if l.ret == "'text'" && err != "text\n" {
        return Err(format!("said {err:?} instead of 'text'"));
    }
    Ok(())
}

/// What the commands made by installing a wheel with this entry_points.txt are: none if it is malformed
fn installed(dir: &Path, data: &[u8]) -> std::result::Result<&'static str, String> {
    let target = dir.join("t");
    let _ = std::fs::remove_dir_all(&target);
    std::fs::create_dir(&target).unwrap();
    let mut zs = wheel_base(true);
    zs.push(Z::file("foo-1.0.dist-info/entry_points.txt", data));
    let shown = String::from_utf8_lossy(data);
    let got = guard(|| unpack_wheel(&zs, &target, ScriptPlatform::Unix, &[("scripts", "bin"), ("purelib", "lib"), ("platlib", "plat"), ("data", ".")])).map_err(|m| format!("installing a wheel with the entry points {shown:?} panics: {m}"))?;
    let says = match std::str::from_utf8(data) {
        Ok(text) => reference(text),
        Err(_) => Says::Invalid,
    };
    let want = match (&says, &got) {
        (Says::Open, _) => return Ok("open"),
        (Says::Invalid, Err(_)) | (Says::IfAny(_), Err(_)) => return Ok("refused"),
        (Says::Invalid, Ok(())) => return Err(format!("a wheel with the malformed entry points {shown:?} is installed as if nothing was wrong")),
        (Says::Is(w) | Says::IfAny(w), _) => w,
    };
    let mut should = std::collections::BTreeSet::new();
    let mut odd = false;
    for g in ["console_scripts", "gui_scripts"] {
        for (n, _, o) in want.get(g).into_iter().flatten() {
            // a command without a function to call, or named twice
            odd |= o.is_none() | !should.insert(n.clone());
        }
    }
    if odd {
        return Ok("open");
    }
    if let Err(e) = got {
        return Err(format!("a wheel with the entry points {shown:?} cannot be installed: {e:#}"));
    }
    let made: std::collections::BTreeSet<String> = std::fs::read_dir(target.join("bin")).map_or_else(|_| Default::default(), |d| d.map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect());
    if made != should {
        return Err(format!("a wheel with the entry points {shown:?} made the commands {made:?} instead of {should:?}"));
    }
    Ok("installed")
}

pub fn p20(mut ctx: Ctx) -> i32 {
    ctx.unprivileged = true;
    ctx.hang_secs = 300;
    let thorough = ctx.thorough();
    let mut cases = vec![];
    for i in 0..LINES.len() {
        for k in 0..3 {
            cases.push(C::Lines(i, k));
        }
    }
    for i in 0..TOKENS.len() {
        for k in 0..3 {
            cases.push(C::Tokens(i, k));
        }
    }
    for i in 0..ARGS.len() {
        cases.push(C::Run(i));
    }
    for i in 0..COMMANDS.len() {
        cases.push(C::Names(i));
    }
    for i in 0..6 {
        cases.push(C::Invoke(i));
    }
    for i in 0..LINES.len() {
        cases.push(C::Wheel(i));
    }
    ctx.run_cases(&cases, |c| format!("{c:?}"), |case, rep, dir| {
        let key = format!("{case:?}");
        rep.states += 1;
        rep.case(&key, true);
        let check = |text: &str, rep: &mut Rep| {
            rep.transitions += 1;
            match judge(text) {
                Err(m) => {
                    if rep.violations.len() < 4 {
                        rep.violation(key.clone(), m)
                    }
                }
                Ok(o) => {
                    rep.traces += (o == "read") as u64;
                    rep.outcome(o);
                }
            }
        };
        let run = |l: Launch, rep: &mut Rep| {
            rep.transitions += 1;
            rep.traces += 1;
            match launch(dir, &l) {
                Err(m) => rep.violation(key.clone(), format!("the {} {:?} for {:?} (returns {}, started in way {}) with arguments {:?} {m}", if l.gui { "window program" } else { "command" }, l.name, l.module, l.ret, l.how, l.args)),
                Ok(()) => rep.outcome("started"),
            }
        };
        match case {
            C::Lines(i, k) => {
                let end = ["\n", "\r\n", "\n"][*k];
                let depth = if thorough { 4 } else { 3 };
                let all: Vec<&str> = LINES.iter().copied().collect();
                sequences(&all, *i, depth, &mut |l| {
                    // four lines: only those that can go together
                    if l.len() == 4 && l[1..].iter().any(|x| matches!(line(x), Line::Bad | Line::Open)) {
                        return;
                    }
                    let mut text = l.iter().map(|x| **x).collect::<Vec<_>>().join(end);
                    if *k < 2 {
                        text += end;
                    }
                    check(&text, rep);
                    // and within a section
                    check(&format!("[zero]{end}{text}"), rep);
                });
                if *i == 15 && *k == 0 {
                    rep.sample(json!({"text": "[zero]\nfoo = foomod:main\n", "says": format!("{:?}", reference("[zero]\nfoo = foomod:main\n"))}));
                }
            }
            C::Tokens(i, k) => {
                // after a name, after a whole entry, and by themselves
                let before = ["[g]\nn = ", "[g]\nn = m", "[g]\n"][*k];
                let all: Vec<&str> = TOKENS.iter().copied().collect();
                sequences(&all, *i, if thorough { 5 } else { 4 }, &mut |l| {
                    let text = format!("{before}{}", l.iter().map(|x| **x).collect::<String>());
                    check(&text, rep);
                });
            }
            C::Wheel(i) => {
                let mut check = |data: &[u8], rep: &mut Rep| {
                    rep.transitions += 1;
                    match installed(dir, data) {
                        Err(m) => {
                            if rep.violations.len() < 4 {
                                rep.violation(key.clone(), m)
                            }
                        }
                        Ok(o) => {
                            rep.traces += (o == "installed") as u64;
                            rep.outcome(o);
                        }
                    }
                };
                let heads: &[&str] = &["", "[console_scripts]\n", "[gui_scripts]\n", "[g]\n"];
                for head in heads {
                    check(format!("{head}{}\n", LINES[*i]).as_bytes(), rep);
                    for l in LINES {
                        check(format!("{head}{}\n{l}\n", LINES[*i]).as_bytes(), rep);
                    }
                    // not text at all
                    for bytes in [&b"\xff"[..], b"# \xc3", b"x = m:f # \xe9", b"\xe9 = m:f", b"\xed\xa0\x80 = m:f"] {
                        for ends in [&b""[..], b"\n", b"\nx = m:f\n"] {
                            let mut data = format!("{head}{}\n", LINES[*i]).into_bytes();
                            data.extend(bytes);
                            data.extend(ends);
                            check(&data, rep);
                        }
                    }
                }
            }
            C::Run(i) => {
                for (n, (ret, code)) in RETURNS.iter().enumerate() {
                    if n < 3 || n % ARGS.len() == *i || thorough {
                        for gui in [false, true] {
                            let input = ["", "in\u{e9}\nput"][n % 2];
                            run(Launch { name: "foo", module: MODULES[n % MODULES.len()], gui, ret, code: *code, args: ARGS[*i], input, how: 0 }, rep);
                        }
                    }
                }
            }
            C::Names(i) => {
                for (n, module) in MODULES.iter().enumerate() {
                    run(Launch { name: COMMANDS[*i], module: *module, gui: n % 2 == 1, ret: "7", code: 7, args: &["x y"], input: "", how: 0 }, rep);
                }
            }
            C::Invoke(how) => {
                for args in ARGS {
                    for gui in [false, true] {
                        run(Launch { name: "foo", module: MODULES[0], gui, ret: "2", code: 2, args, input: "x", how: *how }, rep);
                    }
                }
                for (ret, code) in RETURNS {
                    run(Launch { name: "foo", module: MODULES[2], gui: false, ret, code: *code, args: &["1"], input: "", how: *how }, rep);
                }
            }
        }
    });
    finish(ctx, Level {
        level: "model_checking",
        rule: "every file of up to three (thorough: four) lines over an alphabet of headers, comments, entries and malformed lines x line endings, and every sequence of up to four (five) tokens after a section, a name and a module, read by the real parser and by a reference; every argument vector, return value, module shape, command name and way of starting of the alphabets (each with each where stated) installed from a wheel by the real code and run with python; every file of up to two lines after no header or one of three, with and without bytes that are not UTF-8, as the entry points of a wheel that is installed, with the commands it makes; states = first lines, tokens and argument vectors, transitions = files read and commands run, traces = files whose declarations were compared, and commands run",
        assumptions: &["the launchers for Windows are run through the archive in them, not as Windows programs", "comments within names, continuation lines, duplicate names, and groups with unusual characters are left open"],
    })
}
