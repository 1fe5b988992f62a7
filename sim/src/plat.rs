//! The same cases on other machines (simulated by an interpreter) and in other builds of the crate.
use crate::exec::{Buf, Out, World};
use crate::scen::{Scen, Step};
use simcore::ops::{Call, C, G};
use simcore::refreader::Img;
use simcore::refsession::RefS;
use simcore::rng::mix;
use simcore::seam::{ctx, SimBytes};
use simdrv::batch::{run, Case, Seen};
use simdrv::Tables;
use std::io::{BufRead, BufReader, Read};
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub enum How {
    /// Interpreted for this target.
    Machine(&'static str),
    /// Compiled for this one: features, release.
    Build(&'static str, bool),
    /// Compiled for a WebAssembly engine, checked.
    Wasm,
    /// Compiled for a processor simulated here, checked.
    Cpu(&'static str),
    /// Only built, without a standard library: features.
    Bare(&'static str),
}

pub struct Machine {
    pub name: &'static str,
    pub how: How,
}

pub const MACHINES: &[Machine] = &[
    Machine { name: "64-bit big-endian", how: How::Machine("s390x-unknown-linux-gnu") },
    Machine { name: "32-bit big-endian", how: How::Machine("powerpc-unknown-linux-gnu") },
    Machine { name: "32-bit little-endian", how: How::Wasm },
    Machine { name: "32-bit big-endian (MIPS)", how: How::Cpu("mips32") },
    Machine { name: "64-bit big-endian (MIPS)", how: How::Cpu("mips64") },
    Machine { name: "no features, checked", how: How::Build("", false) },
    Machine { name: "no features, optimised", how: How::Build("", true) },
    Machine { name: "alloc, checked", how: How::Build("alloc", false) },
    Machine { name: "alloc, optimised", how: How::Build("alloc", true) },
    Machine { name: "std, checked", how: How::Build("std", false) },
    Machine { name: "std, optimised", how: How::Build("std", true) },
    Machine { name: "no features, no standard library", how: How::Bare("") },
    Machine { name: "alloc, no standard library", how: How::Bare("alloc") },
];

/// Machines a property is about: first and number; those after that are only built.
pub fn range(prop: &str) -> (usize, usize, usize) {
    if prop == "C17" {
        (0, 5, 5)
    } else {
        (5, 6, 8)
    }
}

fn root() -> String {
    std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn cargo(m: &Machine, what: &str) -> Command {
    let root = root();
    let dir = format!("{root}/target/plat");
    let _ = std::fs::create_dir_all(&dir);
    let mut c = Command::new("cargo");
    let toml = format!("{root}/sim/plat/Cargo.toml");
    match &m.how {
        How::Machine(t) => {
            // The interpreter keeps its standard library in the cache directory.
            c.args(["+nightly", "miri", what, "-q", "--bin", "simplat", "--offline", "--target", t, "--manifest-path", &toml]);
            c.args(["--target-dir", &format!("{dir}/{t}")]).env("XDG_CACHE_HOME", format!("{dir}/cache-{t}"));
            c.env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmir-opt-level=3");
        }
        How::Cpu(_) => unreachable!(),
        How::Wasm => {
            let mut c = Command::new("node");
            c.arg(format!("{root}/sim/plat/host.js")).arg(format!("{dir}/wasm/wasm32-machine/checked/platlib.wasm"));
            return c;
        }
        How::Build(f, rel) => {
            c.args([what, "-q", "--offline", "--no-default-features", "--features", &format!("host,{f}"), "--manifest-path", &toml]);
            c.args(["--target-dir", &format!("{dir}/b-{f}")]);
            if *rel {
                c.arg("--release");
            }
        }
        How::Bare(f) => {
            c.args(["+nightly", "build", "-q", "--offline", "-Zbuild-std=core,alloc", "--target", "thumbv7em-none-eabi"]);
            c.args(["--features", f, "--manifest-path", &format!("{root}/sim/bare/Cargo.toml"), "--target-dir", &format!("{dir}/bare-{f}")]);
        }
    }
    c.env("RUSTFLAGS", "").env_remove("RUSTC_WRAPPER").stdin(Stdio::null());
    c
}

/// Builds for a machine. Err: (nt-hive itself does not build, what was said).
pub fn build(i: usize) -> Result<(), (bool, String)> {
    let m = &MACHINES[i];
    let o = match &m.how {
        // There is no "cargo miri build": run it on nothing.
        How::Wasm => {
            let root = root();
            let mut c = Command::new("cargo");
            c.args(["+nightly", "build", "-q", "--offline", "--lib", "--no-default-features", "--features", "alloc", "--profile", "checked"]);
            c.args(["-Zbuild-std=core,alloc", "-Zjson-target-spec", "--target", &format!("{root}/sim/plat/wasm32-machine.json")]);
            c.args(["--manifest-path", &format!("{root}/sim/plat/Cargo.toml"), "--target-dir", &format!("{root}/target/plat/wasm")]);
            c.env("RUSTFLAGS", "").env_remove("RUSTC_WRAPPER").stdin(Stdio::null()).output()
        }
        How::Cpu(t) => {
            let root = root();
            let mut c = Command::new("cargo");
            c.args(["+nightly", "build", "-q", "--offline", "--bin", "machine", "--no-default-features", "--features", "machine"]);
            c.args(["--profile", "checked", "-Zbuild-std=core,alloc", "-Zbuild-std-features=compiler-builtins-mem", "-Zjson-target-spec"]);
            c.args(["--target", &format!("{root}/sim/plat/{t}-machine.json"), "--manifest-path", &format!("{root}/sim/plat/Cargo.toml")]);
            c.args(["--target-dir", &format!("{root}/target/plat/{t}")]);
            c.env("RUSTFLAGS", "").env_remove("RUSTC_WRAPPER").stdin(Stdio::null()).output()
        }
        How::Machine(_) => {
            let f = format!("{}/target/plat-nothing", root());
            let _ = std::fs::write(&f, [0u8; 4]);
            cargo(m, "run").args(["--", &f]).output()
        }
        _ => cargo(m, "build").output(),
    };
    match o {
        Err(e) => Err((false, e.to_string())),
        Ok(o) if o.status.success() => Ok(()),
        Ok(o) => {
            let t = String::from_utf8_lossy(&o.stderr).into_owned();
            let first = t.lines().find(|l| l.starts_with("error")).unwrap_or("").to_string();
            let mine = t.contains("could not compile `nt-hive`");
            Err((mine, if mine { first } else { t }))
        }
    }
}

// ---------------------------------------------------------------- cases

/// The case of a scenario and what this machine sees. None: not comparable (too long, or it crashes here).
pub fn prepare(sc: &Scen, out: &mut Out) -> Option<(Case, u64)> {
    let m = MACHINES.get(sc.cfg("machine", 0) as usize)?;
    let interpreted = matches!(m.how, How::Machine(_));
    let owned = !matches!(m.how, How::Build("", _));
    let mut world = World::new(sc);
    let mut reads: Vec<&Step> = vec![];
    for s in &sc.steps {
        if s.tag == "r" {
            reads.push(s);
        } else {
            world.apply(s, out);
        }
    }
    let img = world.d.file.clone();
    if img.len() > 200_000 && interpreted {
        out.n("too_long", 1);
        return None;
    }
    let mut calls: Vec<Call> = vec![];
    {
        let buf = Buf::new(&img, 0);
        let (_, h) = simdrv::open(buf.sim(), false);
        if let Some(h) = h {
            let mut refs = RefS::new(Img { b: &img }, world.d.faulty);
            let mut t: Tables<SimBytes> = Tables::default();
            for s in &reads {
                let Some(mut c) = refs.resolve(&s.a) else { continue };
                c.narrow();
                if !owned && matches!(c, Call::VVec(_) | Call::VStr(_) | Call::VMulti(_) | Call::KText(_, 0 | 1 | 3) | Call::VText(_, 0 | 1)) {
                    continue;
                }
                refs.take(&c);
                let rec = simdrv::step(&h, buf.base(), &mut t, &c);
                out.n("calls", 1);
                if interpreted && rec.use_.steps > 20_000 {
                    out.n("too_long", 1);
                    return None;
                }
                let (_, go) = refs.follow(&c, &rec);
                if rec.obs.is_err() {
                    out.n("errors_returned", 1);
                }
                calls.push(c);
                if !go {
                    break;
                }
            }
        }
    }
    let mut case = Case { align: sc.cfg("align", 0) as usize, img, calls, whole: sc.cfg("whole", 1) == 1 };
    loop {
        let s0 = ctx(|c| c.steps.get());
        let mut want = 1u64;
        let mut seen = 0u64;
        let mut crash = false;
        run(&case, false, &mut |s| {
            want = mix(want ^ s.hash);
            seen += 1;
            crash |= s.crash;
        });
        let steps = ctx(|c| c.steps.get()) - s0;
        if crash {
            // Beyond the step limit, or some other property's business.
            if case.whole {
                case.whole = false;
                out.n("walks_left_out", 1);
                continue;
            }
            out.n("crashes_here", 1);
            return None;
        }
        if interpreted && steps > 60_000 {
            if case.whole {
                case.whole = false;
                continue;
            }
            out.n("too_long", 1);
            return None;
        }
        out.n("ticks", steps);
        out.h(want);
        out.n("answers_compared", seen);
        out.shape(sc.cfg("machine", 0));
        out.shape(want);
        return Some((case, want));
    }
}

type Ran = Result<(Vec<Got>, Vec<(u64, String, String)>), String>;

/// Most instructions of a simulated processor between two things it says.
const CPU_LIMIT: u64 = 20_000_000_000;

fn run_cpu(t: &str, cases: &[&Case], verbose: bool, alive: &mut dyn FnMut()) -> Ran {
    use crate::mips::{Mips, Stop};
    let f = format!("{}/target/plat/{t}/{t}-machine/checked/machine", root());
    let elf = std::fs::read(&f).map_err(|e| format!("{f}: {e}"))?;
    let mut b = (cases.len() as u32).to_le_bytes().to_vec();
    for c in cases {
        c.encode(&mut b);
    }
    let mut m = Mips::new(&elf)?;
    let mut got: Vec<Got> = vec![];
    let mut seen = vec![];
    while got.len() < cases.len() {
        let mut last = String::new();
        m.start(&b, got.len(), verbose);
        let end = m.run(CPU_LIMIT, &mut |l| {
            alive();
            if let Some(r) = l.strip_prefix("B ") {
                got.push(match u64::from_str_radix(r, 16) {
                    Ok(h) => Got::Seen(h),
                    _ => Got::Crash,
                });
            } else if let Some(r) = l.strip_prefix('!') {
                last = r.to_string();
            } else if let Some((h, r)) = l.split_once('\t') {
                let (w, t) = r.split_once('\t').unwrap_or((r, ""));
                seen.push((u64::from_str_radix(h, 16).unwrap_or(0), w.to_string(), t.to_string()));
            }
        });
        match end {
            Stop::Done if last.is_empty() => break,
            Stop::Done => got.push(Got::Died(format!("ends the program: {}", last.replace('\n', " ")))),
            Stop::Trap(t) => got.push(Got::Died(format!("ends the program: {t} {last}"))),
            Stop::Steps => got.push(Got::Died("does not finish".into())),
            Stop::Harness(e) => return Err(format!("{t}: {e}")),
        }
    }
    if std::env::var_os("SIM_SAY").is_some() {
        eprintln!("{t}: {} instructions", m.steps);
    }
    Ok((got, seen))
}

pub enum Got {
    Seen(u64),
    Crash,
    /// The process ended in this case, saying this.
    Died(String),
    NotRun,
}

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}

/// Runs cases on a machine. With `verbose`: what was seen in the (only) case, too.
pub fn run_on(mi: usize, cases: &[&Case], scratch: &str, verbose: bool, alive: &mut dyn FnMut()) -> Ran {
    static N: AtomicU64 = AtomicU64::new(0);
    let m = &MACHINES[mi];
    if let How::Cpu(t) = &m.how {
        return run_cpu(t, cases, verbose, alive);
    }
    let f = format!("{scratch}/cases{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed));
    let mut b = (cases.len() as u32).to_le_bytes().to_vec();
    for c in cases {
        c.encode(&mut b);
    }
    std::fs::write(&f, &b).map_err(|e| format!("{f}: {e}"))?;
    let mut c = match &m.how {
        How::Build(feat, rel) => {
            Command::new(format!("{}/target/plat/b-{feat}/{}/simplat", root(), if *rel { "release" } else { "debug" }))
        }
        How::Wasm => cargo(m, "run"),
        _ => {
            let mut c = cargo(m, "run");
            c.arg("--");
            c
        }
    };
    c.arg(&f);
    if verbose {
        c.arg("-v");
    }
    let mut ch = c.stdout(Stdio::piped()).stderr(Stdio::piped()).stdin(Stdio::null()).process_group(0).spawn().map_err(|e| e.to_string())?;
    let pid = ch.id() as i32;
    let mut err = ch.stderr.take().unwrap();
    let errs = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = err.read_to_end(&mut b);
        String::from_utf8_lossy(&b).into_owned()
    });
    let beat = Arc::new(AtomicU64::new(0));
    let over = Arc::new(AtomicBool::new(false));
    let (b2, o2) = (beat.clone(), over.clone());
    let dog = std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        while !o2.load(Ordering::SeqCst) {
            std::thread::sleep(Duration::from_millis(50));
            let n = b2.load(Ordering::SeqCst);
            if n != last.0 {
                last = (n, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(100) {
                unsafe { kill(-pid, 9) };
                return true;
            }
        }
        false
    });
    let mut got: Vec<Got> = vec![];
    let mut seen = vec![];
    let mut ended = false;
    let mut started = false;
    for l in BufReader::new(ch.stdout.take().unwrap()).lines() {
        let Ok(l) = l else { break };
        beat.fetch_add(1, Ordering::SeqCst);
        alive();
        if let Some(r) = l.strip_prefix("B ") {
            got.push(match u64::from_str_radix(r, 16) {
                Ok(h) => Got::Seen(h),
                _ => Got::Crash,
            });
        } else if l == "S" {
            started = true;
        } else if l == "E" {
            ended = true;
        } else if let Some((h, r)) = l.split_once('\t') {
            let (w, t) = r.split_once('\t').unwrap_or((r, ""));
            seen.push((u64::from_str_radix(h, 16).unwrap_or(0), w.to_string(), t.to_string()));
        }
    }
    let st = ch.wait().map_err(|e| e.to_string())?;
    over.store(true, Ordering::SeqCst);
    let hung = dog.join().unwrap_or(false);
    let said = errs.join().unwrap_or_default();
    if std::env::var_os("SIM_KEEP").is_none() {
        let _ = std::fs::remove_file(&f);
    }
    if !ended && got.len() < cases.len() {
        if std::env::var_os("SIM_SAY").is_some() {
            eprintln!("{said}");
        }
        let line = said.lines().find(|l| l.starts_with("error") || l.contains("panicked")).unwrap_or("").to_string();
        if !started || (!hung && st.code() == Some(3)) {
            return Err(format!("the driver fails on {}: {said}", m.name));
        }
        if said.contains("unsupported operation") {
            return Err(format!("{}: {said}", m.name));
        }
        got.push(Got::Died(if hung { "does not finish".into() } else { format!("ends the process ({st}) {line}") }));
    }
    while got.len() < cases.len() {
        got.push(Got::NotRun);
    }
    Ok((got, seen))
}

/// True: the other machine sees what this one sees.
pub fn same(want: u64, got: &Got) -> bool {
    match got {
        Got::Seen(g) => *g == want,
        Got::NotRun => true,
        _ => false,
    }
}

/// Finds out what differs.
pub fn explain(mi: usize, case: &Case, scratch: &str) -> Result<Option<String>, String> {
    let mut want: Vec<Seen> = vec![];
    run(case, true, &mut |s| want.push(s));
    let all = want.iter().fold(1, |h, s| mix(h ^ s.hash));
    let (got, seen) = run_on(mi, &[case], scratch, true, &mut || {})?;
    let Some(g) = got.first() else { return Ok(None) };
    if same(all, g) {
        return Ok(None);
    }
    let name = MACHINES[mi].name;
    if let Got::Died(m) = g {
        let what = want.get(seen.len()).map_or("", |w| &w.what);
        return Ok(Some(format!("{name}: {what} {m}")));
    }
    let at = (0..).find(|&i| seen.get(i).map(|s| s.0) != want.get(i).map(|s| s.hash) || i > seen.len()).unwrap_or(0);
    let (w, t) = seen.get(at).map_or(("nothing", "nothing"), |s| (&s.1, &s.2));
    let (w2, t2) = want.get(at).map_or(("nothing", "nothing"), |s| (&s.what, &s.text));
    Ok(Some(format!("{name}: {w} gives {t} where this machine's {w2} gives {t2}")))
}

/// One scenario on its own.
pub fn one(sc: &Scen, out: &mut Out) {
    let mi = sc.cfg("machine", 0) as usize;
    if mi >= MACHINES.len() {
        return;
    }
    if let Err((mine, e)) = build(mi) {
        if mine {
            out.viol(G::Open, C::Depends, false, format!("{}: nt-hive does not build: {e}", MACHINES[mi].name));
        } else {
            out.harness = Some(e);
        }
        return;
    }
    if sc.steps.is_empty() {
        return;
    }
    let Some((case, _)) = prepare(sc, out) else { return };
    out.nontrivial = true;
    let scratch = std::env::var("SIM_SCRATCH").unwrap_or_else(|_| "/verif/target/scratch".into());
    match explain(mi, &case, &scratch) {
        Ok(None) => {}
        Ok(Some(m)) => out.viol(G::Dump, C::Depends, false, m),
        Err(e) => out.harness = Some(e),
    }
}
