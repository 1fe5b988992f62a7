//! The readhive example, as a process whose system calls on the hive are answered by the simulator.
use crate::exec::{Out, World};
use crate::scen::Scen;
use simcore::ops::{C, G};
use simcore::refreader::{DataAt, Img, Nk, Vk};
use simcore::refsession::{ref_multi, ref_string};
use simcore::rng::hash_bytes;
use std::fmt::Write as _;
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

const TYPES: [&str; 12] = [
    "RegNone",
    "RegSZ",
    "RegExpandSZ",
    "RegBinary",
    "RegDWord",
    "RegDWordBigEndian",
    "RegLink",
    "RegMultiSZ",
    "RegResourceList",
    "RegFullResourceDescriptor",
    "RegResourceRequirementsList",
    "RegQWord",
];

fn lossy(u: &[u16]) -> String {
    char::decode_utf16(u.iter().copied()).map(|r| r.unwrap_or('\u{fffd}')).collect()
}

/// What readhive has to print for these bytes.
pub enum Want {
    Listing(String),
    /// Something on the way cannot be read.
    Unreadable,
    /// Shared subtrees make the listing too long to compare; this is how it begins.
    Huge(String),
    /// Keys lead back to their ancestors; this is how the listing begins.
    Endless(String),
}

impl Want {
    fn text(&self) -> Option<&str> {
        match self {
            Want::Listing(s) => Some(s),
            _ => None,
        }
    }
}

/// A registry tree has at most 512 levels.
const DEEP: usize = 600;
const LONG: usize = 8 << 20;

pub fn listing(img: &Img) -> Want {
    if !img.broken_rules().is_empty() {
        return Want::Unreadable;
    }
    let Ok(root) = img.root() else { return Want::Unreadable };
    let mut o = String::new();
    let mut deep = false;
    let r = img.nk_name(root).ok().and_then(|n| {
        writeln!(o, "{}", lossy(&img.units(n))).ok()?;
        sub(img, root, 0, &mut o, &mut deep)
    });
    match r {
        Some(()) => Want::Listing(o),
        None if deep => Want::Endless(o),
        None if o.len() > LONG => Want::Huge(o),
        None => Want::Unreadable,
    }
}

fn sub(img: &Img, k: Nk, level: usize, o: &mut String, deep: &mut bool) -> Option<()> {
    if level > DEEP {
        *deep = true;
        return None;
    }
    if o.len() > LONG {
        return None;
    }
    let Some(l) = img.subs(k) else { return Some(()) };
    let l = l.ok()?;
    let ind = "  ".repeat(level);
    for i in 0..l.total {
        let s = img.sub_at(&l, i).ok()?;
        writeln!(o, "{ind}● {}", lossy(&img.units(img.nk_name(s).ok()?))).ok()?;
        if let Some(c) = img.class(s) {
            writeln!(o, "{ind}  Class Name: {}", lossy(&img.units(c.ok()?))).ok()?;
        }
        if let Some(vl) = img.values(s) {
            let vl = vl.ok()?;
            for i in 0..vl.count {
                value(img, img.val_at(&vl, i).ok()?, &ind, o)?;
            }
        }
        sub(img, s, level + 1, o, deep)?;
    }
    Some(())
}

fn value(img: &Img, v: Vk, ind: &str, o: &mut String) -> Option<()> {
    let mut name = lossy(&img.units(img.vk_name(v).ok()?));
    if name.is_empty() {
        name = "(Default)".into();
    }
    let t = img.vk_type(v).ok()?;
    writeln!(o, "{ind}  ○ {name} - {} - {}", TYPES[t as usize], img.vk_size(v)).ok()?;
    write!(o, "{ind}    ").ok()?;
    let small = |n: usize| match img.data(v) {
        Ok(DataAt::Small { at, len }) if len == n => Some(img.b[at..at + len].to_vec()),
        _ => None,
    };
    match t {
        1 | 2 => {
            // Nothing behind the first NUL is looked at.
            let (b, bad) = img.prefix(v).ok()?;
            if bad.is_some() && !b.chunks_exact(2).any(|c| c == [0, 0]) {
                return None;
            }
            writeln!(o, "{}", ref_string(&b))
        }
        3 => match img.data(v).ok()? {
            DataAt::Small { at, len } => writeln!(o, "{:?}", img.b[at..at + len].to_vec()),
            DataAt::Big(_) => writeln!(o, "BIG DATA"),
        },
        4 => writeln!(o, "{}", u32::from_le_bytes(small(4)?.try_into().ok()?)),
        5 => writeln!(o, "{}", u32::from_be_bytes(small(4)?.try_into().ok()?)),
        7 => {
            let (b, bad) = img.prefix(v).ok()?;
            let (l, ended) = ref_multi(&b, bad.is_none());
            if bad.is_some() && !ended {
                return None;
            }
            writeln!(o, "{l:?}")
        }
        11 => writeln!(o, "{}", u64::from_le_bytes(small(8)?.try_into().ok()?)),
        _ => writeln!(o),
    }
    .ok()
}

/// Whether KNOWN_FINDINGS lists this call site (the supervisor passes them on).
fn listed(key: &str) -> bool {
    std::env::var("SIM_KNOWN").is_ok_and(|l| l.split(',').any(|k| k == key))
}

pub fn tool(sc: &Scen, out: &mut Out) {
    let mut world = World::new(sc);
    let mut plan = String::new();
    let mut hard = false;
    for s in &sc.steps {
        if s.tag == "io" {
            let g = |i: usize| s.a.get(i).copied().unwrap_or(0);
            let errno = [5, 13, 2, 116, 23, 12, 21, 110][(g(2) % 8) as usize];
            let word = match (g(0) % 4, g(1) % 4) {
                (0, 0) => {
                    hard = true;
                    format!("o:E:{errno}")
                }
                (0, _) => "o:I:0".into(),
                (1, 0) => {
                    hard = true;
                    format!("r:E:{errno}")
                }
                (1, 1) => {
                    hard = true;
                    "r:Z:0".into()
                }
                (1, 2) => "r:I:0".into(),
                (1, _) => format!("r:S:{}", 1 + g(2) % 9000),
                (2, 0) => "w:I:0".into(),
                (2, _) => format!("w:S:{}", 1 + g(2) % 200),
                (_, 0) => format!("s:E:{errno}"),
                (_, _) => format!("s:H:{}", g(2) % 20000),
            };
            plan.push_str(&word);
            plan.push(' ');
        } else {
            world.apply(s, out);
        }
    }
    let img0 = world.d.file.clone();
    let damaged = world.d.faulty || !world.d.clean;
    let img = Img { b: &img0 };
    let want = if img0.is_empty() { Want::Unreadable } else { listing(&img) };
    if !damaged && want.text().is_none() {
        // Values whose types readhive does not print; not meant by the property.
        return;
    }
    let dir = std::env::var("SIM_SCRATCH").unwrap_or_else(|_| ".".into());
    let file = format!("{dir}/h{}", std::process::id());
    if let Err(e) = std::fs::write(&file, &img0) {
        out.harness = Some(format!("scratch file: {e}"));
        return;
    }
    let bin = std::env::var("SIM_READHIVE").unwrap_or_default();
    let shim = std::env::var("SIM_SHIM").unwrap_or_default();
    let child = Command::new(&bin)
        .arg(&file)
        .env_clear()
        .env("LD_PRELOAD", &shim)
        .env("SIMIO_FILE", &file)
        .env("SIMIO_PLAN", &plan)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn();
    let mut child = match child {
        Ok(c) => c,
        Err(e) => {
            out.harness = Some(format!("cannot run {bin}: {e}"));
            return;
        }
    };
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    const MAX: u64 = 32 << 20;
    let errs = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = se.by_ref().take(1 << 20).read_to_end(&mut v);
        v
    });
    let mut stdout = Vec::new();
    let _ = so.by_ref().take(MAX).read_to_end(&mut stdout);
    let flood = stdout.len() as u64 == MAX;
    if flood {
        let _ = child.kill();
    }
    drop(so);
    let status = match child.wait() {
        Ok(s) => s,
        Err(e) => {
            out.harness = Some(format!("wait: {e}"));
            return;
        }
    };
    let stderr = String::from_utf8_lossy(&errs.join().unwrap_or_default()).into_owned();
    let _ = std::fs::remove_file(&file);
    let (msg, log) = match stderr.rfind("\nSIMIO") {
        Some(p) => (stderr[..p].to_string(), stderr[p + 6..].trim().to_string()),
        None => (stderr, String::new()),
    };
    for w in log.split_whitespace() {
        if let Some((k, n)) = w.split_once('=') {
            let name = match k {
                "i" => "open_eintr",
                "o" => "open_error",
                "I" => "read_eintr",
                "E" => "read_error",
                "Z" => "premature_eof",
                "S" => "short_read",
                "J" => "write_eintr",
                "W" => "short_write",
                "s" => "stat_error",
                "h" => "stat_wrong_size",
                _ => "other",
            };
            let n: u64 = n.parse().unwrap_or(0);
            out.n(&format!("fault:{name}"), n);
            out.shape(hash_bytes(name.as_bytes(), n));
            out.nontrivial = true;
        }
    }
    out.n("calls", 1);
    out.h(hash_bytes(&stdout, status.code().unwrap_or(-1) as u64 & 0xff));
    // What of it was printed has to be right.
    if let Want::Endless(w) | Want::Huge(w) = &want {
        let n = w.len().min(stdout.len());
        if stdout[..n] != w.as_bytes()[..n] {
            return out.viol(G::Tool, C::Value, damaged, "the listing of an endless tree begins wrong".into());
        }
    }
    let mut bad = |key: &str, c: C, msg: String| {
        if !key.is_empty() && listed(key) {
            out.n(&format!("known:{key}"), 1);
        } else {
            out.viol(G::Tool, c, damaged, msg);
        }
    };
    if flood {
        match want {
            Want::Huge(_) => out.n("huge_listings", 1),
            Want::Endless(_) => bad("readhive-endless-nesting", C::Cost, "readhive does not stop printing a tree without end".into()),
            _ => bad("", C::Cost, "readhive does not stop printing".into()),
        }
        return;
    }
    // A fault that was planned but not reached does not count.
    let hard = hard && (log.contains("o=") || log.contains("E=") || log.contains("Z="));
    match (status.code(), status.signal()) {
        (None, s) => {
            let key = match want {
                Want::Endless(_) if msg.contains("has overflowed its stack") => "readhive-endless-nesting",
                _ => "",
            };
            bad(key, C::Panic, format!("readhive died of signal {s:?}"))
        }
        (Some(101), _) => {
            let root_name = img.broken_rules().is_empty() && img.root().is_ok_and(|k| img.nk_name(k).is_err());
            let key = if root_name && stdout.is_empty() && msg.contains("called `Result::unwrap()`") { "readhive-root-name" } else { "" };
            bad(key, C::Panic, format!("readhive panicked: {}", msg.chars().take(300).collect::<String>()))
        }
        (Some(0), _) => match want.text() {
            // Premature end of file: the bytes it got are the ones that count.
            _ if hard && log.contains("Z=") && want.text().is_none_or(|w| w.as_bytes() != stdout) => {
                // The file was cut where the simulator said; a listing of a prefix can only be right if
                // the cut lies behind everything. The header check makes a shorter buffer invalid.
                out.viol(G::Tool, C::Missed, damaged, "readhive printed a listing of a file it read only in part".into())
            }
            Some(w) if w.as_bytes() == stdout => out.n("listings", 1),
            Some(w) => {
                let got = String::from_utf8_lossy(&stdout).into_owned();
                let d = got.lines().zip(w.lines()).position(|(a, b)| a != b).unwrap_or(got.lines().count().min(w.lines().count()));
                out.viol(
                    G::Tool,
                    C::Value,
                    damaged,
                    format!("readhive line {d}: {:?} instead of {:?}", got.lines().nth(d), w.lines().nth(d)),
                )
            }
            None if matches!(want, Want::Huge(_)) => out.n("huge_listings", 1),
            None => out.viol(G::Tool, C::Missed, damaged, "readhive ended with success although the hive cannot be read".into()),
        },
        (Some(c), _) => {
            if msg.trim().is_empty() {
                out.viol(G::Tool, C::WrongErr, damaged, format!("readhive ended with status {c} without a message"));
            } else if !damaged && !hard {
                out.viol(G::Tool, C::Spurious, damaged, format!("readhive ended with status {c} on an intact hive: {}", msg.trim()));
            }
        }
    }
}
