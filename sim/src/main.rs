//! simctl: deterministic simulation of nt-hive.
//!
//!   simctl check C05            search (VERIF_SEED, VERIF_TIER), minimise, write evidence
//!   simctl replay FILE          run a replay file; exit 1 if its violation shows again
//!   simctl gen C05 17           print the scenario of run 17
mod exec;
mod gen;
mod mips;
mod places;
mod plat;
mod scen;
mod threads;
mod tool;

use scen::Scen;
use simcore::ops::{Viol, C, G};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{exit, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Whether a violation breaks the property that is being checked.
fn relevant(prop: &str, v: &Viol) -> bool {
    // No answer at all.
    let crash = matches!(v.c, C::Panic | C::Stack | C::Endless);
    let answer = matches!(v.c, C::Value | C::Spurious | C::Missed);
    match prop {
        "C01" => crash,
        "C02" => matches!(v.c, C::Cost | C::Endless),
        "C03" => v.g == G::Crash || (v.g == G::Open && crash),
        "C04" => matches!(v.g, G::Open | G::Header) && (answer || crash || v.c == C::WrongErr),
        "C05" => {
            !v.damaged
                && matches!(v.g, G::Open | G::Nav | G::Enum | G::Name | G::Data | G::Meta | G::Dump)
                && (answer || crash || matches!(v.c, C::WrongErr | C::Write))
        }
        "C06" => !v.damaged && matches!(v.g, G::Lookup | G::Cmp | G::Enum) && (answer || crash || v.c == C::WrongErr),
        "C07" => v.g == G::Typed && (answer || crash),
        "C08" => v.damaged && !matches!(v.g, G::Open | G::Header | G::Crash | G::Clear) && (answer || crash),
        "C09" => v.c == C::WrongErr,
        "C10" => v.g == G::Clear && !matches!(v.c, C::Cost | C::Alloc | C::WrongErr),
        "C11" => matches!(v.c, C::Depends | C::Write),
        "C12" => v.c == C::Depends,
        "C13" => v.g == G::Iter && v.c != C::Cost,
        "C14" => v.c == C::Alloc,
        "C15" => v.g == G::Tool,
        "C16" => v.g == G::Cmp && (answer || crash),
        "C17" | "C19" => v.c == C::Depends,
        _ => false,
    }
}

fn death_class(code: Option<i32>) -> String {
    match code {
        Some(80) => "Any/Panic".into(),
        Some(77) => "Any/Cost".into(),
        Some(78) => "Any/Stack".into(),
        Some(79) => "Any/Alloc".into(),
        Some(c) => format!("Any/Exit{c}"),
        None => "Any/Signal".into(),
    }
}

fn death_msg(class: &str) -> &'static str {
    match class {
        "Any/Cost" => "a call ran for ever (its step budget was exceeded four times over)",
        "Any/Stack" => "a call exhausted the stack",
        "Any/Alloc" => "a call asked for more than 1 GiB of memory",
        _ => "the process running the call died",
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    simcore::seam::install_panic_hook();
    match s(1) {
        "check" => check(s(2)),
        "work" => work(s(2), s(3).parse().unwrap(), s(4).parse().unwrap(), s(5).parse().unwrap()),
        "exec" => exec_file(s(2)),
        "replay" => replay(s(2)),
        "gen" => print!("{}", gen::gen(s(2), env_u64("VERIF_SEED", 1), s(3).parse().unwrap_or(0)).text()),
        "image" => {
            // What is on disk at the end of a scenario.
            let t = std::fs::read_to_string(s(2)).unwrap();
            let sc = &scen::parse(&t).unwrap()[0];
            let mut w = exec::World::new(sc);
            let mut o = exec::Out::default();
            for x in &sc.steps {
                w.apply(x, &mut o);
            }
            std::fs::write(s(3), &w.d.file).unwrap();
        }
        "one" => {
            let sc = gen::gen(s(2), env_u64("VERIF_SEED", 1), s(3).parse().unwrap_or(0));
            show(&sc.prop, &exec::exec(&sc));
        }
        _ => {
            eprintln!("usage: simctl check PROP | replay FILE | gen PROP K | one PROP K");
            exit(2);
        }
    }
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn show(prop: &str, o: &exec::Out) {
    if let Some(h) = &o.harness {
        println!("HARNESS {h}");
    }
    for v in &o.viols {
        println!("{} {} {}", if relevant(prop, v) { "V" } else { "v" }, v.class(), v.msg.replace('\n', " "));
    }
    println!("hash {:016x}", o.hash);
}

// ---------------------------------------------------------------- worker

fn work(prop: &str, master: u64, start: u64, count: u64) {
    let out = std::io::stdout();
    let mut out = out.lock();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut max: BTreeMap<String, u64> = BTreeMap::new();
    if matches!(prop, "C17" | "C19") {
        elsewhere(prop, master, start, count, &mut out);
        return;
    }
    if start == 0 && !exec::instrumented() {
        let _ = writeln!(out, "H 0 nt-hive was not compiled with callbacks");
        exit(3);
    }
    for k in start..start + count {
        let sc = gen::gen(prop, master, k);
        let o = exec::exec(&sc);
        if let Some(h) = o.harness {
            let _ = writeln!(out, "H {k} {h}");
            exit(3);
        }
        for (k, v) in o.stats {
            *stats.entry(k).or_default() += v;
        }
        for (k, v) in o.max {
            let e = max.entry(k).or_default();
            *e = (*e).max(v);
        }
        let _ = writeln!(out, "R {k} {:x} {:x} {}", o.hash, o.shape, o.nontrivial as u8);
        for v in &o.viols {
            if relevant(prop, v) {
                let _ = writeln!(out, "V {k} {} {}", v.class(), v.msg.replace('\n', " "));
                break;
            }
            *stats.entry(format!("other_findings:{}", v.class())).or_default() += 1;
        }
    }
    for (k, v) in stats {
        let _ = writeln!(out, "T {k} {v}");
    }
    for (k, v) in max {
        let _ = writeln!(out, "M {k} {v}");
    }
    let cov: Vec<String> = simcore::seam::covered_blocks().iter().map(|x| x.to_string()).collect();
    let _ = writeln!(out, "C {}", cov.join(","));
    let _ = writeln!(out, "E");
}

/// Runs on other machines: all of a machine's cases in one go.
fn elsewhere(prop: &str, master: u64, start: u64, count: u64, out: &mut impl Write) {
    let scratch = std::env::var("SIM_SCRATCH").unwrap_or_else(|_| "/verif/target/scratch".into());
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let (first, n, _) = plat::range(prop);
    let mut groups: Vec<Vec<(u64, simdrv::batch::Case, u64)>> = (0..n).map(|_| vec![]).collect();
    for k in start..start + count {
        let sc = gen::gen(prop, master, k);
        let mut o = exec::Out::default();
        let p = plat::prepare(&sc, &mut o);
        let _ = writeln!(out, "R {k} {:x} {:x} {}", o.hash, o.shape, p.is_some() as u8);
        for (k, v) in o.stats {
            *stats.entry(k).or_default() += v;
        }
        if let Some((c, w)) = p {
            groups[sc.cfg("machine", 0) as usize - first].push((k, c, w));
        }
    }
    for (i, g) in groups.iter().enumerate().rev() {
        let mi = first + i;
        let cases: Vec<&simdrv::batch::Case> = g.iter().map(|x| &x.1).collect();
        if cases.is_empty() {
            continue;
        }
        *stats.entry(format!("fault:run_on_{}", plat::MACHINES[mi].name.replace([' ', ','], "_"))).or_default() += g.len() as u64;
        let r = plat::run_on(mi, &cases, &scratch, false, &mut || {
            let _ = writeln!(out, "P");
        });
        match r {
            Err(e) => {
                let _ = writeln!(out, "H {} {}", g[0].0, e.replace('\n', " "));
                exit(3);
            }
            Ok((got, _)) => {
                for ((k, c, w), g) in g.iter().zip(&got) {
                    if !plat::same(*w, g) {
                        match plat::explain(mi, c, &scratch) {
                            Ok(Some(m)) => {
                                let _ = writeln!(out, "V {k} Dump/Depends {}", m.replace('\n', " "));
                            }
                            Ok(None) => {
                                let _ = writeln!(out, "V {k} Dump/Depends {}: another answer after other cases", plat::MACHINES[mi].name);
                            }
                            Err(e) => {
                                let _ = writeln!(out, "H {k} {}", e.replace('\n', " "));
                                exit(3);
                            }
                        }
                        break;
                    }
                }
            }
        }
    }
    for (k, v) in stats {
        let _ = writeln!(out, "T {k} {v}");
    }
    let _ = writeln!(out, "E");
}

fn exec_file(f: &str) {
    let t = std::fs::read_to_string(f).unwrap_or_else(|e| {
        eprintln!("{f}: {e}");
        exit(3)
    });
    let l = scen::parse(&t).unwrap_or_else(|e| {
        eprintln!("{f}: {e}");
        exit(3)
    });
    for sc in &l {
        let o = exec::exec(sc);
        if let Some(h) = &o.harness {
            println!("H {h}");
            exit(3);
        }
        println!("R {:x}", o.hash);
        for v in &o.viols {
            if relevant(&sc.prop, v) {
                println!("V {} {}", v.class(), v.msg.replace('\n', " "));
            }
        }
    }
    println!("E");
}

/// Runs scenarios in a fresh process. The first relevant violation: (class, message).
fn try_scens(l: &[Scen], scratch: &str) -> Result<Option<(String, String)>, String> {
    static N: AtomicU64 = AtomicU64::new(0);
    let f = format!("{scratch}/try{}", N.fetch_add(1, Ordering::Relaxed));
    let text: String = l.iter().map(|s| s.text()).collect();
    std::fs::write(&f, text).map_err(|e| e.to_string())?;
    let r = run_exec(&f);
    let _ = std::fs::remove_file(&f);
    r
}

fn run_exec(f: &str) -> Result<Option<(String, String)>, String> {
    let o = Command::new(std::env::current_exe().unwrap())
        .args(["exec", f])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    let t = String::from_utf8_lossy(&o.stdout).into_owned();
    for l in t.lines() {
        if let Some(v) = l.strip_prefix("V ") {
            let (c, m) = v.split_once(' ').unwrap_or((v, ""));
            return Ok(Some((c.into(), m.into())));
        }
        if let Some(h) = l.strip_prefix("H ") {
            return Err(h.into());
        }
    }
    if t.lines().last() == Some("E") {
        return Ok(None);
    }
    if o.status.code() == Some(3) {
        return Err("replay file cannot be executed".into());
    }
    let c = death_class(o.status.code());
    let m = death_msg(&c).to_string();
    Ok(Some((c, m)))
}

fn replay(f: &str) {
    match run_exec(f) {
        Ok(Some((c, m))) => {
            println!("reproduced: {c} {m}");
            exit(1);
        }
        Ok(None) => println!("not reproduced: the property held in this execution"),
        Err(e) => {
            eprintln!("harness error: {e}");
            exit(3);
        }
    }
}

// ---------------------------------------------------------------- supervisor

#[derive(Default)]
struct Agg {
    runs: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    shapes: HashSet<u64>,
    run_hash: BTreeMap<u64, u64>,
    stats: BTreeMap<String, u64>,
    max: BTreeMap<String, u64>,
    cov: BTreeSet<u32>,
    /// (run, chunk start, class, message)
    found: Vec<(u64, u64, String, String)>,
    harness: Option<String>,
    samples: Vec<u64>,
}

fn chunk(prop: &str, master: u64, start: u64, count: u64, agg: &Mutex<Agg>, stop: &AtomicBool) {
    let mut c = match Command::new(std::env::current_exe().unwrap())
        .args(["work", prop, &master.to_string(), &start.to_string(), &count.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => {
            agg.lock().unwrap().harness.get_or_insert(format!("spawn: {e}"));
            stop.store(true, Ordering::SeqCst);
            return;
        }
    };
    let pid = c.id() as i32;
    let out = BufReader::new(c.stdout.take().unwrap());
    // Watchdog for loops that no instrumentation sees.
    let progress = std::sync::Arc::new(AtomicU64::new(0));
    let over = std::sync::Arc::new(AtomicBool::new(false));
    let (p2, o2) = (progress.clone(), over.clone());
    let dog = std::thread::spawn(move || {
        let mut last = (p2.load(Ordering::SeqCst), Instant::now());
        while !o2.load(Ordering::SeqCst) {
            std::thread::sleep(Duration::from_millis(100));
            let now = p2.load(Ordering::SeqCst);
            if now != last.0 {
                last = (now, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(150) {
                unsafe { kill(pid, 9) };
                return true;
            }
        }
        false
    });
    let mut ended = false;
    let mut last = None;
    let mut killed = false;
    for l in out.lines() {
        let Ok(l) = l else { break };
        progress.fetch_add(1, Ordering::SeqCst);
        let mut w = l.splitn(2, ' ');
        let tag = w.next().unwrap_or("");
        let rest = w.next().unwrap_or("");
        let mut g = agg.lock().unwrap();
        match tag {
            "R" => {
                let f: Vec<&str> = rest.split(' ').collect();
                let k: u64 = f[0].parse().unwrap_or(0);
                let h = u64::from_str_radix(f[1], 16).unwrap_or(0);
                last = Some(k);
                g.runs += 1;
                if f[3] == "1" {
                    g.nontrivial += 1;
                    g.hashes.insert(h);
                    g.shapes.insert(u64::from_str_radix(f[2], 16).unwrap_or(0));
                    if g.samples.len() < 3 {
                        g.samples.push(k);
                    }
                }
                if k < 4000 && k % 97 == 0 {
                    g.run_hash.insert(k, h);
                }
            }
            "V" => {
                let f: Vec<&str> = rest.splitn(3, ' ').collect();
                g.found.push((f[0].parse().unwrap_or(0), start, f[1].into(), f.get(2).unwrap_or(&"").to_string()));
                stop.store(true, Ordering::SeqCst);
            }
            "H" => {
                g.harness.get_or_insert(format!("run {rest}"));
                stop.store(true, Ordering::SeqCst);
            }
            "T" | "M" => {
                if let Some((k, v)) = rest.rsplit_once(' ') {
                    let v: u64 = v.parse().unwrap_or(0);
                    if tag == "T" {
                        *g.stats.entry(k.into()).or_default() += v;
                    } else {
                        let e = g.max.entry(k.into()).or_default();
                        *e = (*e).max(v);
                    }
                }
            }
            "C" => {
                for x in rest.split(',') {
                    if let Ok(x) = x.parse() {
                        g.cov.insert(x);
                    }
                }
            }
            "E" => ended = true,
            _ => {}
        }
        drop(g);
        if stop.load(Ordering::SeqCst) && !ended {
            unsafe { kill(pid, 9) };
            killed = true;
            break;
        }
    }
    let st = c.wait();
    over.store(true, Ordering::SeqCst);
    let hung = dog.join().unwrap_or(false);
    if ended || killed {
        return;
    }
    let mut g = agg.lock().unwrap();
    if g.harness.is_some() {
        return;
    }
    let run = last.map_or(start, |k| k + 1);
    let code = st.as_ref().ok().and_then(|s| s.code());
    if !hung && code == Some(3) {
        g.harness = Some(format!("run {run}: the simulator panicked"));
        stop.store(true, Ordering::SeqCst);
        return;
    }
    let class = if hung { "Any/Hang".to_string() } else { death_class(code) };
    let m = if hung { "a call did not return for 150 s" } else { death_msg(&class) };
    g.found.push((run, start, class, m.to_string()));
    stop.store(true, Ordering::SeqCst);
}

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}

fn check(prop: &str) {
    let t0 = Instant::now();
    let master = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let (mut runs, cap) = gen::budget(prop, thorough);
    runs = env_u64("SIM_RUNS", runs);
    let cap = env_u64("SIM_CAP", cap);
    let root = std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into());
    let scratch = format!("{root}/target/scratch/{prop}-{}", std::process::id());
    std::fs::create_dir_all(&scratch).expect("scratch directory");
    std::env::set_var("SIM_SCRATCH", &scratch);
    let known = known_findings(prop, &root);
    std::env::set_var("SIM_KNOWN", known.iter().map(|k| k.0.as_str()).collect::<Vec<_>>().join(","));
    let workers = std::thread::available_parallelism().map_or(4, |n| n.get());
    let agg = Mutex::new(Agg::default());
    let stop = AtomicBool::new(false);
    let mut size = (runs / (workers as u64 * 8)).clamp(20, 1000);
    if matches!(prop, "C17" | "C19") {
        size = 600;
        build_elsewhere(prop, master, &root, &scratch);
    }
    let t0 = if matches!(prop, "C17" | "C19") { Instant::now() } else { t0 };
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let start = next.fetch_add(size, Ordering::SeqCst);
                if start >= runs || stop.load(Ordering::SeqCst) || t0.elapsed() > Duration::from_secs(cap) {
                    return;
                }
                chunk(prop, master, start, size.min(runs - start), &agg, &stop);
            });
        }
    });
    let mut agg = agg.into_inner().unwrap();
    let search = t0.elapsed().as_secs_f64();
    let clean = |code: i32| -> ! {
        let _ = std::fs::remove_dir_all(&scratch);
        exit(code)
    };
    if let Some(h) = &agg.harness {
        if agg.found.is_empty() {
            eprintln!("harness error: {h}");
            clean(3);
        }
    }
    agg.found.sort();
    let mut verdict = None;
    for (k, start, class, msg) in agg.found.clone() {
        if let Some(v) = confirm(prop, master, k, start, &class, &msg, &scratch) {
            verdict = Some(v);
            break;
        }
        eprintln!("run {k}: {class} {msg}: does not show again in a fresh process");
    }
    // One seed, one execution: some runs again, in fresh processes.
    let mut again = 0;
    let mut differ = Vec::new();
    if verdict.is_none() && agg.found.is_empty() {
        for (k, h) in agg.run_hash.iter().take(12) {
            let o = Command::new(std::env::current_exe().unwrap()).args(["work", prop, &master.to_string(), &k.to_string(), "1"]).output();
            if let Ok(o) = o {
                let t = String::from_utf8_lossy(&o.stdout).into_owned();
                if let Some(l) = t.lines().find(|l| l.starts_with("R ")) {
                    again += 1;
                    let got = l.split(' ').nth(2).and_then(|x| u64::from_str_radix(x, 16).ok());
                    if got != Some(*h) {
                        differ.push(*k);
                    }
                }
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(prop, master, thorough, &agg, search, wall, again, &differ, verdict.is_some(), &root);
    println!(
        "{prop}: {} runs ({} distinct and non-trivial), {} calls, {} simulated steps, {:.1} s",
        agg.runs,
        agg.hashes.len(),
        agg.stats.get("calls").unwrap_or(&0),
        agg.stats.get("ticks").unwrap_or(&0),
        wall
    );
    if let Some((text, class, msg, k)) = verdict {
        let dir = format!("{root}/out");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-seed{master}-run{k}.scn");
        let head = format!("# property {prop}\n# VERIF_SEED={master} run {k}\n# {class}: {msg}\n# replay: /verif/replay {path}\n");
        if let Err(e) = std::fs::write(&path, head + &text) {
            eprintln!("cannot write {path}: {e}");
        }
        println!("{class}: {msg}");
        println!("VIOLATION property={prop} replay={path}");
        clean(1);
    }
    if !agg.found.is_empty() {
        eprintln!("harness error: a violation was seen but could not be replayed");
        clean(3);
    }
    for (key, replay, text) in &known {
        // Listed, so it is no violation; still shown, as long as it is there.
        let r = Command::new(std::env::current_exe().unwrap()).args(["replay", &format!("{root}/{replay}")]).env("SIM_KNOWN", "").output();
        match r {
            Ok(o) if o.status.code() == Some(1) => println!("KNOWN-FINDING: property={prop} {key}: {text}"),
            Ok(_) => println!("note: {key} does not show any more"),
            Err(e) => eprintln!("{e}"),
        }
    }
    if agg.nontrivial == 0 {
        eprintln!("harness error: no run exercised the property");
        clean(3);
    }
    if !differ.is_empty() {
        println!("note: runs {differ:?} did not repeat exactly");
    }
    clean(0);
}

/// Builds for all machines of a property; a crate that does not build there is a violation.
fn build_elsewhere(prop: &str, master: u64, root: &str, scratch: &str) {
    let (first, _, n) = plat::range(prop);
    let r: Vec<(usize, Result<(), (bool, String)>)> = std::thread::scope(|s| {
        let h: Vec<_> = (first..first + n).map(|i| s.spawn(move || (i, plat::build(i)))).collect();
        h.into_iter().map(|x| x.join().unwrap()).collect()
    });
    for (i, r) in r {
        let Err((mine, e)) = r else { continue };
        let _ = std::fs::remove_dir_all(scratch);
        if !mine {
            eprintln!("harness error: {}: {e}", plat::MACHINES[i].name);
            exit(3);
        }
        let mut sc = Scen::new(prop);
        sc.set("kind", 6);
        sc.set("machine", i as u64);
        let _ = std::fs::create_dir_all(format!("{root}/out"));
        let path = format!("{root}/out/{prop}-build{i}.scn");
        let m = format!("{}: nt-hive does not build: {e}", plat::MACHINES[i].name);
        let _ = std::fs::write(&path, format!("# property {prop}\n# VERIF_SEED={master}\n# {m}\n{}", sc.text()));
        let agg = Agg::default();
        evidence(prop, master, false, &agg, 0.0, 0.0, 0, &[], true, root);
        println!("{m}");
        println!("VIOLATION property={prop} replay={path}");
        exit(1);
    }
}

/// The defects that are listed and not repaired: key, replay file, description.
fn known_findings(prop: &str, root: &str) -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(format!("{root}/KNOWN_FINDINGS")).unwrap_or_default();
    let mut l = Vec::new();
    for line in t.lines() {
        let w: Vec<&str> = line.splitn(5, ' ').collect();
        if w.len() == 5 && w[0] == "known:" && w[1] == format!("property={prop}") {
            if let (Some(k), Some(r)) = (w[2].strip_prefix("key="), w[3].strip_prefix("replay=")) {
                l.push((k.into(), r.into(), w[4].into()));
            }
        }
    }
    l
}

// ---------------------------------------------------------------- minimising

fn confirm(prop: &str, master: u64, k: u64, start: u64, class: &str, msg: &str, scratch: &str) -> Option<(String, String, String, u64)> {
    let t0 = Instant::now();
    let sc = gen::gen(prop, master, k);
    let same = |r: &Result<Option<(String, String)>, String>| matches!(r, Ok(Some((c, _))) if c == class);
    if same(&try_scens(std::slice::from_ref(&sc), scratch)) {
        let m = minimise(sc, class, scratch, t0);
        let r = try_scens(std::slice::from_ref(&m), scratch);
        let msg = match r {
            Ok(Some((_, m))) => m,
            _ => msg.to_string(),
        };
        return Some((m.text(), class.into(), msg, k));
    }
    // State that survives from earlier runs in the same process: replay those too.
    let mut l: Vec<Scen> = (start..=k).map(|i| gen::gen(prop, master, i)).collect();
    if !same(&try_scens(&l, scratch)) {
        return None;
    }
    let mut size = l.len() / 2;
    while size > 0 && t0.elapsed() < Duration::from_secs(60) {
        let mut i = 0;
        while i + size < l.len() {
            let mut c = l.clone();
            c.drain(i..i + size);
            if same(&try_scens(&c, scratch)) {
                l = c;
            } else {
                i += size;
            }
        }
        size /= 2;
    }
    Some((l.iter().map(|s| s.text()).collect(), class.into(), msg.into(), k))
}

fn minimise(mut sc: Scen, class: &str, scratch: &str, t0: Instant) -> Scen {
    let limit = Duration::from_secs(env_u64("SIM_MINIMISE", 40));
    let bad = |s: &Scen| matches!(try_scens(std::slice::from_ref(s), scratch), Ok(Some((c, _))) if c == class);
    loop {
        let before = sc.clone();
        let mut size = (sc.steps.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < sc.steps.len() && t0.elapsed() < limit {
                let mut c = sc.clone();
                c.steps.drain(i..(i + size).min(c.steps.len()));
                if bad(&c) {
                    sc = c;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let keys: Vec<String> = sc.cfg.keys().filter(|k| !["kind", "tasks", "seed", "machine"].contains(&k.as_str())).cloned().collect();
        for k in keys {
            if t0.elapsed() > limit {
                break;
            }
            let mut c = sc.clone();
            c.cfg.remove(&k);
            if bad(&c) {
                sc = c;
            }
        }
        for i in 0..sc.steps.len() {
            for j in 0..sc.steps[i].a.len() {
                let v = sc.steps[i].a[j];
                let mut cand = vec![0, 1, v / 16, v / 2, v.saturating_sub(1)];
                cand.retain(|&x| x < v);
                cand.dedup();
                for x in cand {
                    if t0.elapsed() > limit {
                        return sc;
                    }
                    let mut c = sc.clone();
                    c.steps[i].a[j] = x;
                    if bad(&c) {
                        sc = c;
                        break;
                    }
                }
            }
        }
        if sc == before || t0.elapsed() > limit {
            return sc;
        }
    }
}

// ---------------------------------------------------------------- evidence

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn obj(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
    format!("{{{}}}", v.join(", "))
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, master: u64, thorough: bool, agg: &Agg, search: f64, wall: f64, again: usize, differ: &[u64], violated: bool, root: &str) {
    let mut faults = BTreeMap::new();
    let mut other = BTreeMap::new();
    let mut elsewhere = BTreeMap::new();
    for (k, v) in &agg.stats {
        if let Some(f) = k.strip_prefix("fault:") {
            faults.insert(f.to_string(), *v);
        } else if let Some(f) = k.strip_prefix("other_findings:") {
            elsewhere.insert(f.to_string(), *v);
        } else {
            other.insert(k.clone(), *v);
        }
    }
    let samples: Vec<String> = agg
        .samples
        .iter()
        .map(|&k| {
            let t = gen::gen(prop, master, k).text();
            let t: String = t.chars().take(2500).collect();
            format!("{{\"run\": {k}, \"scenario\": {}}}", js(&t))
        })
        .collect();
    let real = match prop {
        "C15" => "readhive and nt-hive (unmodified build of the example), std file and output I/O, the dynamic loader",
        "C11" => "nt-hive (all modules, built from /repo with basic-block callbacks), OS threads and std synchronisation of the harness",
        "C17" => "nt-hive (all modules, built from /repo for s390x, powerpc, mips, mips64, wasm32 and this machine), core and alloc of each target, the WebAssembly engine",
        "C19" => "nt-hive (all modules, built from /repo with no features, alloc and std; with and without optimisation and checks; and, built only, for a target without a standard library)",
        _ => "nt-hive (all modules, built from /repo with basic-block callbacks)",
    };
    let stub = match prop {
        "C15" => "registry writer, disk, and the results of open/read/write/statx on the hive file and standard output",
        "C17" => "registry writer, disk and crash model, callers; the s390x and powerpc processors (interpreted by Miri) and the mips and mips64 ones (simulated, unaligned accesses trap)",
        "C19" => "registry writer, disk and crash model, callers",
        "C11" => "registry writer, disk, thread scheduler, byte store",
        _ => "registry writer, disk and crash model, byte store, allocator accounting, callers",
    };
    let level = if prop == "C03" || prop == "C10" || prop == "C15" { "fault_enumeration" } else { "exploration" };
    let text = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {master}, \"level\": \"{level}\", \"wall_s\": {wall:.2}, \"violations\": {},\n \
         \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \
         \"runs_per_hour\": {}, \"search_s\": {search:.2}, \"seeds\": {},\n  \"simulated_steps\": {}, \"simulated_time_note\": {},\n  \
         \"faults_injected\": {},\n  \"distinct_interleavings_or_histories\": {}, \"distinct_measure\": {},\n  \
         \"counters\": {},\n  \"maxima\": {},\n  \"basic_blocks_reached\": {},\n  \"repeated_runs\": {again}, \"repeated_runs_that_differed\": {},\n  \
         \"findings_of_other_properties_seen\": {},\n  \"real_components\": {}, \"stubbed_components\": {}\n }},\n \
         \"assumptions\": [{}]\n}}\n",
        js(prop),
        js(if thorough { "thorough" } else { "quick" }),
        violated as u8,
        agg.runs,
        agg.hashes.len(),
        js(gen::rule(prop)),
        samples.join(", "),
        (agg.runs as f64 / search.max(0.001) * 3600.0) as u64,
        agg.runs,
        agg.stats.get("ticks").unwrap_or(&0),
        js("nt-hive has no clock; simulated time is counted in steps: basic blocks of nt-hive executed plus accesses to hive bytes"),
        obj(&faults),
        agg.shapes.len(),
        js(match prop {
            "C11" => "hash of the sequence of task switches and of who finished which call in which order",
            "C13" => "hash of the sequence of iterator operations and remaining lengths",
            "C10" => "hash of the image and the number of partial states seen",
            _ => "hash of the sequence of faults injected",
        }),
        obj(&other),
        obj(&agg.max),
        agg.cov.len(),
        differ.len(),
        obj(&elsewhere),
        js(real),
        js(stub),
        js(match prop {
            "C17" => "the interpreter, the simulated processors and the WebAssembly engine behave as the machines do; this machine's answers are the reference",
            "C19" => "this build's answers are the reference",
            _ => "the reference reader and the model of the registry writer are right (they are checked against each other on every intact image)",
        }),
    );
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    if let Err(e) = std::fs::write(format!("{root}/evidence/{prop}.json"), text) {
        eprintln!("cannot write evidence: {e}");
    }
}
