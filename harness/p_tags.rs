//! P16: platform tags.
use std::collections::BTreeMap;

use serde_json::json;

use super::core::*;
use crate::prelude::*;

/// What a tag means on the platform with the given core tag: None: not accepted; Some(rank), smaller
/// is better; Open: the specifications (or posy's documentation) leave it open.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ok_ {
    No,
    Rank(i64),
    Open,
}

#[derive(Clone, PartialEq, Debug)]
enum T {
    Linux { musl: bool, major: u32, minor: u32, arch: String, alias: bool },
    Mac { major: u32, minor: u32, arch: String },
    Other(String),
}

fn parse_tag(t: &str) -> T {
    let num = |s: &str| s.parse::<u32>().ok().filter(|_| !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()));
    let archy = |s: &str| !s.is_empty() && s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_');
    for (a, minor) in [("manylinux2014_", 17), ("manylinux2010_", 12), ("manylinux1_", 5)] {
        if let Some(arch) = t.strip_prefix(a).filter(|s| archy(s)) {
            return T::Linux { musl: false, major: 2, minor, arch: arch.into(), alias: true };
        }
    }
    for (p, k) in [("manylinux_", 0), ("musllinux_", 1), ("macosx_", 2)] {
        if let Some(rest) = t.strip_prefix(p) {
            let mut it = rest.splitn(3, '_');
            if let (Some(a), Some(b), Some(arch)) = (it.next(), it.next(), it.next()) {
                if let (Some(major), Some(minor), true) = (num(a), num(b), archy(arch)) {
                    return if k == 2 {
                        T::Mac { major, minor, arch: arch.into() }
                    } else {
                        T::Linux { musl: k == 1, major, minor, arch: arch.into(), alias: false }
                    };
                }
            }
        }
    }
    T::Other(t.into())
}

fn accepts(core: &str, tag: &str) -> Ok_ {
    use Ok_::*;
    match (parse_tag(core), parse_tag(tag)) {
        (T::Linux { musl, major, minor, arch, .. }, T::Linux { musl: m2, major: j2, minor: n2, arch: a2, alias }) => {
            if musl != m2 || major != j2 || arch != a2 || n2 > minor {
                return No;
            }
            // the alias right behind the tag it stands for
            Rank((minor - n2) as i64 * 2 + alias as i64)
        }
        (T::Mac { major, minor, arch }, T::Mac { major: j2, minor: n2, arch: a2 }) => {
            if major < 10 {
                return if core == tag { Rank(0) } else { No };
            }
            // which binaries run there (distutils' names for universal binaries)
            let members: &[&str] = match a2.as_str() {
                "universal2" => &["arm64", "x86_64", "universal2"],
                "intel" => &["x86_64", "intel"],
                "fat64" => &["x86_64", "fat64"],
                "universal" => &["x86_64", "universal"],
                "fat3" | "fat32" if arch == "x86_64" => return Open,
                x if x == arch => &["*"],
                _ => &[],
            };
            if !(members.contains(&arch.as_str()) || members == ["*"]) {
                return No;
            }
            if arch == "arm64" && j2 < 11 {
                // no arm64 machine ran these, but universal2 files carry such tags
                return Open;
            }
            // from 11 on only the major version counts, 10.16 is another name of 11
            let ok = match (j2, n2) {
                (10, n) => n <= if major == 10 { minor } else { 15 },
                (j, 0) => j > 10 && j <= major,
                (j, n) => {
                    // tags like macosx_11_3: open, unless newer in any case
                    if j < 10 || j > major || (j == major && n > minor && major > 10 && minor == 0) {
                        return if j < 10 || j > major { No } else { Open };
                    }
                    return Open;
                }
            };
            if !ok {
                return No;
            }
            let version = if j2 == 10 { n2 as i64 } else { 100 + j2 as i64 };
            Rank(10_000 - version * 10 + (a2 != arch) as i64)
        }
        (T::Other(_), _) if core == tag => Rank(0),
        _ => No,
    }
}

fn all_tags(full: bool) -> Vec<String> {
    let mut v: Vec<String> = vec!["any", "win32", "win_amd64", "win_arm64", "linux_x86_64", "linux_armv7l", "", "many", "manylinux", "macosx", "manylinux2014", "manylinux3_x86_64", "manylinux_2_x86_64", "macosx_11_arm64", "musllinux_1_x86_64", "manylinux2_17_x86_64", "xmanylinux_2_17_x86_64", "manylinux_2_17_x86_64-x", "manylinux2014_x86_64-x", "musllinux2014_x86_64", "macosx_9_5_ppc", "macosx_9_4_ppc", "Manylinux_2_17_x86_64"]
        .into_iter()
        .map(String::from)
        .collect();
    let arches = ["x86_64", "i686", "aarch64", "armv7l", "ppc64le", "s390x"];
    for arch in arches {
        for major in [1, 2, 3] {
            for minor in (0..=24).chain([25, 34, 35, 40]) {
                if major != 2 && minor > 3 && !full {
                    continue;
                }
                v.push(format!("manylinux_{major}_{minor}_{arch}"));
                if minor < 6 {
                    v.push(format!("musllinux_{major}_{minor}_{arch}"));
                }
            }
        }
        for a in ["manylinux2014", "manylinux2010", "manylinux1"] {
            v.push(format!("{a}_{arch}"));
        }
    }
    for arch in ["x86_64", "arm64", "universal2", "intel", "fat64", "fat32", "universal", "ppc", "ppc64", "i386", "fat"] {
        for minor in 0..=16 {
            v.push(format!("macosx_10_{minor}_{arch}"));
        }
        for major in [11, 12, 13, 14, 15, 26] {
            v.push(format!("macosx_{major}_0_{arch}"));
            v.push(format!("macosx_{major}_3_{arch}"));
        }
    }
    v
}

enum Case {
    Core(String),
    Wheel(usize),
    Native,
    Machine { wide: usize, narrow: usize },
}

/// A program for this machine that prints these texts and exits.
fn program(out: &str, err: &str, code: u8) -> Vec<u8> {
    let mut text: Vec<u8> = vec![];
    let le = |text: &mut Vec<u8>, op: &[u8], v: u32| {
        text.extend(op);
        text.extend(v.to_le_bytes());
    };
    for (fd, off, len) in [(1, 0, out.len()), (2, out.len(), err.len())] {
        le(&mut text, &[0xb8], 1); // mov eax, write
        le(&mut text, &[0xbf], fd); // mov edi, fd
        le(&mut text, &[0xbe], 0x40_0000 + 120 + 2 * 22 + 12 + off as u32); // mov esi, text
        le(&mut text, &[0xba], len as u32); // mov edx, len
        text.extend([0x0f, 0x05]);
    }
    le(&mut text, &[0xb8], 60); // mov eax, exit
    le(&mut text, &[0xbf], code as u32);
    text.extend([0x0f, 0x05]);
    assert_eq!(text.len(), 2 * 22 + 12);
    text.extend(out.bytes());
    text.extend(err.bytes());
    let mut elf = b"\x7fELF\x02\x01\x01\0\0\0\0\0\0\0\0\0".to_vec();
    elf.extend(2u16.to_le_bytes());
    elf.extend(62u16.to_le_bytes());
    elf.extend(1u32.to_le_bytes());
    elf.extend((0x40_0000u64 + 120).to_le_bytes());
    elf.extend(64u64.to_le_bytes());
    elf.extend(0u64.to_le_bytes());
    elf.extend(0u32.to_le_bytes());
    for x in [64u16, 56, 1, 0, 0, 0] {
        elf.extend(x.to_le_bytes());
    }
    elf.extend(1u32.to_le_bytes());
    elf.extend(5u32.to_le_bytes());
    for x in [0u64, 0x40_0000, 0x40_0000, 120 + text.len() as u64, 120 + text.len() as u64, 0x1000] {
        elf.extend(x.to_le_bytes());
    }
    assert_eq!(elf.len(), 120);
    elf.extend(text);
    elf
}

/// What a detector of the C library's version does, and the version it tells of.
const DETECTORS: &[(Option<(&str, u8)>, Option<(u32, u32)>)] = &[
    (Some(("2.17\n", 0)), Some((2, 17))),
    (Some(("2.5\n", 0)), Some((2, 5))),
    (Some(("2.31.9000\n", 0)), Some((2, 31))),
    (Some(("2.101\n", 0)), Some((2, 101))),
    (Some(("3.0\n", 0)), Some((3, 0))),
    (Some(("12.34", 0)), Some((12, 34))),
    // can't be told, or doesn't run
    (None, None),
    (Some(("2.31\n", 1)), None),
    (Some(("", 0)), None),
    (Some(("glibc\n", 0)), None),
    (Some(("2.99999999999\n", 0)), None),
];

const LOADERS: &[(&str, &str, u8, Option<(u32, u32)>)] = &[
    ("", "musl libc (x86_64)\nVersion 1.2.3\nDynamic Program Loader\nUsage: ld.so [options] [--] pathname\n", 1, Some((1, 2))),
    ("", "musl libc (i386)\nVersion 1.1.24-git-20-g12\nDynamic Program Loader\n", 0, Some((1, 1))),
    ("", "musl libc\nVersion 10.12.3\n", 1, Some((10, 12))),
    ("musl libc\nVersion 1.2.3\n", "", 0, None),
    ("", "Version of another kind\n", 1, None),
];

const MUSL: &[(&str, &str)] = &[("x86_64", "x86_64"), ("aarch64", "aarch64"), ("i386", "i686"), ("armhf", "armv7l"), ("powerpc64le", "ppc64le"), ("s390x", "s390x")];

/// The platforms of made-up machines: what the C libraries there say of themselves.
fn machines(wide: usize, narrow: usize, full: bool, tags: &[PybiPlatform], rep: &mut Rep, dir: &std::path::Path) -> Result<(), String> {
    let root = dir.join("root");
    let lib = root.join("lib");
    // which loaders there are: none, one of each kind in each place, two
    let mut sets: Vec<Vec<(usize, usize)>> = vec![vec![]];
    for a in 0..MUSL.len() {
        for t in 0..LOADERS.len() {
            sets.push(vec![(a, t)]);
            for b in a + 1..MUSL.len() {
                for u in 0..LOADERS.len() {
                    if full || (wide + narrow + a + b + t + u) % 11 == 0 {
                        sets.push(vec![(a, t), (b, u)]);
                    }
                }
            }
        }
    }
    sets.push((0..MUSL.len()).map(|a| (a, a % 3)).collect());
    for set in sets {
        std::fs::remove_dir_all(&root).ok();
        std::fs::create_dir_all(&lib).unwrap();
        let mut want = vec![];
        let mut glibc = BTreeMap::new();
        for (arch, n) in [("x86_64", wide), ("i686", narrow)] {
            let (d, v) = &DETECTORS[n];
            glibc.insert(arch.to_string(), match d {
                Some((out, code)) => program(out, "", *code),
                None => b"no program".to_vec(),
            });
            if let Some((a, b)) = v {
                want.push(format!("manylinux_{a}_{b}_{arch}"));
            }
        }
        for (a, t) in &set {
            let (out, err, code, v) = LOADERS[*t];
            let p = lib.join(format!("ld-musl-{}.so.1", MUSL[*a].0));
            std::fs::write(&p, program(out, err, code)).unwrap();
            std::fs::set_permissions(&p, std::os::unix::fs::PermissionsExt::from_mode(0o755)).unwrap();
            if let Some((x, y)) = v {
                want.push(format!("musllinux_{x}_{y}_{}", MUSL[*a].1));
            }
        }
        let show = format!("x86_64 glibc {:?}, i686 glibc {:?}, musl {:?}", DETECTORS[wide].0, DETECTORS[narrow].0, set.iter().map(|(a, t)| (MUSL[*a].0, LOADERS[*t].1)).collect::<Vec<_>>());
        rep.transitions += 1;
        rep.traces += 1;
        rep.case(&show, true);
        let told = dir.join("told");
        std::fs::remove_file(&told).ok();
        // what's found is kept for the life of a process
        let pid = spawn_child(|| {
            *crate::platform_tags::verif::MACHINE.lock().unwrap() = Some((glibc, root.clone()));
            let r = match PybiPlatform::native_platforms() {
                Err(e) => format!("cannot tell: {e}"),
                Ok(ps) => {
                    let got: Vec<&str> = ps.iter().map(|p| p.core_tag()).collect();
                    let mut r = String::new();
                    if got != want {
                        r = format!("its platforms are {got:?}, should be {want:?}");
                    }
                    for p in tags {
                        let native = want.iter().any(|w| accepts(w, p.core_tag()) != Ok_::No);
                        if p.is_native().ok() != Some(native) {
                            r = format!("{} runs there: {:?}, should be {native}", p.core_tag(), p.is_native());
                            break;
                        }
                    }
                    r
                }
            };
            std::fs::write(&told, r).unwrap();
            0
        });
        match (wait_child(pid, 60.0), std::fs::read_to_string(&told)) {
            (Wait::Exit(0), Ok(s)) if s.is_empty() => rep.outcome(if want.is_empty() { "a machine without platforms" } else { "a machine's platforms" }),
            (w, s) => return Err(format!("{show}: {}", s.unwrap_or(format!("{w:?}")))),
        }
    }
    Ok(())
}

fn meta(tags: &[&str]) -> PybiCoreMetadata {
    let mut t = String::from("Metadata-Version: 2.1\nName: cpython\nVersion: 3.11\nPybi-Environment-Marker-Variables: {}\nPybi-Paths: {}\n");
    for x in tags {
        t += &format!("Pybi-Wheel-Tag: {x}\n");
    }
    t.as_bytes().try_into().unwrap()
}

const TEMPLATES: &[&str] = &["cp311-cp311-PLATFORM", "cp311-abi3-PLATFORM", "py3-none-PLATFORM", "py3-none-any", "cp311-none-any"];

pub fn p16(ctx: Ctx) -> i32 {
    let tags = all_tags(ctx.thorough());
    let mut ctx = ctx;
    let mut cases = vec![];
    // every supported platform: core tags as the detection code builds them, and the legacy names
    cases.extend(tags.iter().filter(|t| !t.is_empty()).filter(|t| {
        match parse_tag(t) {
            T::Mac { major, minor, .. } => major == 10 || minor == 0 || major == 9,
            _ => true,
        }
    }).map(|t| Case::Core(t.clone())));
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut level = lists.clone();
    for _ in 0..ctx.pick(3, 4) {
        level = level.iter().flat_map(|l| (0..TEMPLATES.len()).map(move |t| { let mut l = l.clone(); l.push(t); l })).collect();
        lists.extend(level.iter().cloned());
    }
    for i in 0..lists.len() {
        cases.push(Case::Wheel(i));
    }
    let key = |c: &Case| match c {
        Case::Core(t) => format!("platform {t}"),
        Case::Wheel(i) => format!("interpreter tags {:?}", lists[*i].iter().map(|t| TEMPLATES[*t]).collect::<Vec<_>>()),
        Case::Native => "this machine".into(),
        Case::Machine { wide, narrow } => format!("machine {wide} {narrow}"),
    };
    for wide in 0..DETECTORS.len() {
        for narrow in 0..DETECTORS.len() {
            cases.push(Case::Machine { wide, narrow });
        }
    }
    // finds out for good about the process it runs in
    cases.push(Case::Native);
    let full = ctx.thorough();
    let grid: Vec<PybiPlatform> = ["any", "win32", "macosx_11_0_arm64", "manylinux2014_x86_64", "manylinux1_i686", "manylinux2010_aarch64"].into_iter().map(String::from)
        .chain(["x86_64", "i686", "aarch64", "armv7l"].iter().flat_map(|a| ["manylinux_2_4", "manylinux_2_5", "manylinux_2_17", "manylinux_2_18", "manylinux_2_31", "manylinux_2_32", "manylinux_2_101", "manylinux_3_0", "manylinux_12_34", "musllinux_1_0", "musllinux_1_1", "musllinux_1_2", "musllinux_1_3", "musllinux_10_12"].iter().map(move |m| format!("{m}_{a}"))))
        .map(|t| PybiPlatform::new(&t))
        .collect();
    ctx.run_cases(&cases, key, |case, rep, dir| {
        let key = key(case);
        rep.states += 1;
        match case {
            Case::Core(core) => {
                rep.case(core, true);
                let p = match guard(|| PybiPlatform::new(core)) {
                    Ok(p) => p,
                    Err(e) => return rep.violation(key, e),
                };
                let mut ranked: Vec<(i64, i32, &str)> = vec![];
                for t in tags.iter().chain([core]) {
                    rep.transitions += 1;
                    rep.traces += 1;
                    let got = p.compatibility(t);
                    match (accepts(core, t), got) {
                        (Ok_::No, None) => rep.outcome("not accepted"),
                        (Ok_::Rank(r), Some(g)) => {
                            rep.outcome("accepted");
                            ranked.push((r, g, t));
                        }
                        (Ok_::Open, _) => rep.outcome("not judged"),
                        (w, g) => {
                            rep.violation(key.clone(), format!("{t} on {core}: {g:?}, should be {w:?}"));
                            if rep.violations.len() > 5 {
                                return;
                            }
                        }
                    }
                }
                for (r, g, t) in &ranked {
                    for (r2, g2, t2) in &ranked {
                        if r < r2 && g <= g2 {
                            rep.violation(key.clone(), format!("on {core}, {t} is not preferred over {t2}"));
                            return;
                        }
                        if t == t2 {
                            continue;
                        }
                        // a file with both tags counts as its better one, whatever the order
                        let m = p.max_compatibility([t, t2]);
                        if m != Some(*g.max(g2)) || p.max_compatibility([*t, "foreign", *t2]) != m || p.max_compatibility(["foreign"]).is_some() {
                            rep.violation(key.clone(), format!("{t}.{t2} on {core} rates {m:?}"));
                            return;
                        }
                    }
                }
                // nothing else is accepted
                for t in p.tags() {
                    if accepts(core, t) == Ok_::No {
                        rep.violation(key.clone(), format!("{core} also accepts {t}"));
                    }
                }
                let first = p.core_tag().to_string();
                let want = match parse_tag(core) {
                    T::Linux { alias: true, minor, arch, .. } => format!("manylinux_2_{minor}_{arch}"),
                    _ => core.clone(),
                };
                if first != want && !matches!(parse_tag(core), T::Mac { .. }) {
                    rep.violation(key.clone(), format!("the core tag of {core} is {first}"));
                }
            }
            Case::Wheel(i) => {
                let list: Vec<&str> = lists[*i].iter().map(|t| TEMPLATES[*t]).collect();
                let m = meta(&list);
                for core in ["manylinux_2_6_x86_64", "musllinux_1_1_aarch64", "macosx_11_0_arm64", "macosx_10_9_x86_64", "win_amd64"] {
                    rep.case(&format!("{core} {list:?}"), !list.is_empty());
                    let pybi = PybiPlatform::new(core);
                    let w = match guard(|| pybi.wheel_platform(&m).map_err(|e| e.to_string())) {
                        Ok(Ok(w)) => w,
                        x => return rep.violation(key, format!("{x:?}")),
                    };
                    // rank of a full tag: position of the first template that covers it, then of the platform
                    let rank = |tag: &str| -> Option<(usize, i64)> {
                        let plat = tag.splitn(3, '-').nth(2).unwrap();
                        list.iter().enumerate().find_map(|(n, t)| match t.strip_suffix("PLATFORM") {
                            Some(pre) => tag.strip_prefix(pre).and_then(|p| match accepts(core, p) {
                                Ok_::Rank(r) if p == plat => Some((n, r)),
                                _ => None,
                            }),
                            None => (*t == tag).then_some((n, 0)),
                        })
                    };
                    let mut seen: Vec<((usize, i64), i32, String)> = vec![];
                    for py in ["cp311-cp311", "cp311-abi3", "py3-none", "cp311-none", "cp310-cp310"] {
                        for plat in ["any", "manylinux_2_7_x86_64", "manylinux_2_6_x86_64", "manylinux_2_5_x86_64", "manylinux1_x86_64", "manylinux_2_0_x86_64", "manylinux_2_5_i686", "musllinux_1_2_aarch64", "musllinux_1_1_aarch64", "musllinux_1_0_aarch64", "macosx_12_0_arm64", "macosx_11_0_arm64", "macosx_11_0_universal2", "macosx_11_0_x86_64", "macosx_10_10_x86_64", "macosx_10_9_x86_64", "macosx_10_9_intel", "macosx_10_6_x86_64", "win_amd64", "win32", "PLATFORM"] {
                            let tag = format!("{py}-{plat}");
                            rep.transitions += 1;
                    rep.traces += 1;
                            match (rank(&tag), w.compatibility(&tag)) {
                                (None, None) => rep.outcome("not accepted"),
                                (Some(r), Some(g)) => {
                                    rep.outcome("accepted");
                                    seen.push((r, g, tag));
                                }
                                (a, b) => {
                                    rep.violation(key.clone(), format!("{tag} on {core}: {b:?}, should be {a:?}"));
                                    return;
                                }
                            }
                        }
                    }
                    for (r, g, t) in &seen {
                        for (r2, g2, t2) in &seen {
                            if r < r2 && g <= g2 {
                                return rep.violation(key, format!("on {core}, {t} is not preferred over {t2}"));
                            }
                        }
                    }
                    // compressed tag sets match if and only if one of their expansions does
                    for pys in ["py3", "cp311", "py2.py3", "cp310.cp311"] {
                        for abis in ["none", "cp311.abi3", "cp310"] {
                            for plats in ["any", "manylinux_2_5_x86_64.manylinux1_x86_64", "manylinux_2_7_x86_64.musllinux_1_0_aarch64", "win32.win_amd64", "macosx_10_9_universal2.macosx_11_0_arm64"] {
                                let name: WheelName = format!("x-1-{pys}-{abis}-{plats}.whl").as_str().try_into().unwrap();
                                let mut best: Option<i32> = None;
                                let mut must = false;
                                for a in pys.split('.') {
                                    for b in abis.split('.') {
                                        for c in plats.split('.') {
                                            let t = format!("{a}-{b}-{c}");
                                            must |= rank(&t).is_some();
                                            best = best.max(w.compatibility(&t));
                                        }
                                    }
                                }
                                let got = w.max_compatibility(name.all_tags().iter());
                                rep.transitions += 1;
                    rep.traces += 1;
                                if got != best || (must && got.is_none()) {
                                    return rep.violation(key, format!("{name} on {core}: {got:?}, its best expansion rates {best:?}"));
                                }
                            }
                        }
                    }
                }
            }
            Case::Machine { wide, narrow } => {
                if let Err(m) = machines(*wide, *narrow, full, &grid, rep, dir) {
                    rep.violation(key, m);
                }
            }
            Case::Native => {
                let mut seen = BTreeMap::new();
                match guard(|| PybiPlatform::native_platforms().map(|p| p.to_vec()).map_err(|e| e.to_string())) {
                    Ok(Ok(ps)) => {
                        for p in &ps {
                            rep.case(p.core_tag(), true);
                            seen.insert(p.core_tag().to_string(), p.is_native().ok());
                            if p.is_native().ok() != Some(true) {
                                rep.violation(key.clone(), format!("{} is not native here", p.core_tag()));
                            }
                        }
                        extern "C" {
                            fn gnu_get_libc_version() -> *const std::os::raw::c_char;
                        }
                        let v = unsafe { std::ffi::CStr::from_ptr(gnu_get_libc_version()) }.to_str().unwrap();
                        let want = format!("manylinux_{}_{}", v.replace('.', "_"), std::env::consts::ARCH);
                        if ps.first().map(|p| p.core_tag()) != Some(&want) {
                            rep.violation(key.clone(), format!("the first native platform is {:?}, not {want}", ps.first().map(|p| p.core_tag())));
                        }
                        if PybiPlatform::new("manylinux_2_999_x86_64").is_native().ok() != Some(false) || PybiPlatform::new("manylinux1_x86_64").is_native().ok() != Some(true) || PybiPlatform::new("win32").is_native().ok() != Some(false) {
                            rep.violation(key.clone(), "nativeness of other platforms is wrong".to_string());
                        }
                    }
                    x => rep.violation(key.clone(), format!("{x:?}")),
                }
                rep.sample(json!({"native": seen, "tags": tags.len()}));
            }
        }
    });
    finish(ctx, Level {
        level: "model_checking",
        rule: "every core tag of a grid (glibc, musl, macOS versions and architectures, legacy names, Windows, malformed ones) x every tag of the same grid: accepted or not, all pairs ranked; every list of interpreter tag templates up to the bound x platforms x full tags; compressed tag sets; every answer of the glibc detectors and of musl loaders on made-up machines: their native platforms; against the tag specifications by hand; states = platforms and template lists, transitions = tags judged; distinct = distinct platforms and lists",
        assumptions: &["fat32/fat3, macOS 10 tags on arm64 and macOS tags like 11_3 are not judged", "the glibc detectors themselves are only run on the machine the check runs on"],
    })
}
