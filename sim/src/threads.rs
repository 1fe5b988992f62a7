//! Several threads reading one hive, every interleaving decided by the scenario.
use crate::exec::{Buf, Out, World};
use crate::scen::{Scen, Step};
use simcore::obs::Obs;
use simcore::ops::{Call, C};
use simcore::refreader::Img;
use simcore::refsession::{show, RefS};
use simcore::rng::{hash_bytes, mix};
use simcore::seam::{Sched, SimBytes};
use simdrv::{Hive, Tables};
use std::sync::Mutex;

/// Lets the harness share what a caller could only share if it is Sync; the threads never run at once.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

struct Shared<'h, 'r> {
    t: Tables<'h, SimBytes>,
    refs: RefS<'r>,
    log: Vec<(usize, Call, Obs)>,
    ticks: u64,
    dead: bool,
}

pub fn threads(sc: &Scen, out: &mut Out) {
    let mut world = World::new(sc);
    let n = sc.cfg("tasks", 2).clamp(1, 6) as usize;
    let mut ops: Vec<Vec<Step>> = vec![Vec::new(); n];
    let mut pre: Vec<Step> = Vec::new();
    let mut plan: Vec<(u64, u32)> = Vec::new();
    for s in &sc.steps {
        match s.tag.as_str() {
            "t" => {
                let task = (s.a.first().copied().unwrap_or(0) % n as u64) as usize;
                ops[task].push(Step { tag: "r".into(), a: s.a[1..].to_vec() });
            }
            "r" => pre.push(s.clone()),
            "s" => plan.push((s.a.first().copied().unwrap_or(1), s.a.get(1).copied().unwrap_or(0) as u32)),
            _ => {
                world.apply(s, out);
            }
        }
    }
    let img0 = world.d.file.clone();
    let damaged = world.d.faulty;
    let img = Img { b: &img0 };
    if img.open_err().is_some() {
        return;
    }
    out.h(hash_bytes(&img0, 5));
    let buf = Buf::new(&img0, 0);
    let base = buf.base();
    let (_, Some(hive)) = simdrv::open(buf.sim(), false) else { return };
    let mut sh = Shared { t: Tables::default(), refs: RefS::new(img, damaged), log: vec![], ticks: 0, dead: false };
    // Handles made before the threads start.
    for s in &pre {
        let Some(c) = sh.refs.resolve(&s.a) else { continue };
        sh.refs.take(&c);
        let rec = simdrv::step(&hive, base, &mut sh.t, &c);
        let (_, go) = sh.refs.follow(&c, &rec);
        sh.log.push((n, c, rec.obs));
        if !go {
            return;
        }
    }
    let shared = Force(Mutex::new(sh));
    let sched = Sched::new(n, plan);
    let fh = Force(&hive);
    let (shared_r, sched_r, fh_r, ops_r) = (&shared, &sched, &fh, &ops);
    std::thread::scope(|scope| {
        for me in 0..n {
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(scope, move || task(me, fh_r, base, shared_r, sched_r, &ops_r[me]))
                .expect("thread");
        }
    });
    let sh = shared.0.into_inner().unwrap();
    let (switches, trace) = sched.summary();
    let Shared { log, ticks, t, refs, dead } = sh;
    drop(t);
    drop(refs);
    out.n("calls", log.len() as u64);
    out.n("ticks", ticks);
    out.n("switches", switches);
    out.mx("switches_in_a_run", switches);
    out.nontrivial = switches > 0 && n > 1;
    for x in &trace {
        out.shape(*x as u64 + 1);
    }
    for (who, c, o) in &log {
        out.h(o.hash() ^ *who as u64);
        out.shape(mix(*who as u64 ^ hash_bytes(format!("{c:?}").as_bytes(), 1)));
    }
    if buf.bytes() != img0 {
        out.viol(simcore::ops::G::Nav, C::Write, damaged, "reading changed the buffer".into());
    }
    if dead {
        // A call crashed in the middle; whether it does so alone too is for the serial run to say.
        out.n("crashed_calls", 1);
    }
    // The same calls, by one thread, in the order in which they were finished.
    let mut t: Tables<SimBytes> = Tables::default();
    let (_, Some(hive2)) = simdrv::open(buf.sim(), false) else { return };
    for (who, c, o) in &log {
        if matches!(c, Call::KDrop(_) | Call::VDrop(_)) {
            continue;
        }
        let rec = simdrv::step(&hive2, base, &mut t, c);
        if rec.obs != *o {
            out.viol(
                c.group(),
                C::Depends,
                damaged,
                format!("{} by thread {who}: {} instead of {}, which it returns without the other threads", show(c), o.short(), rec.obs.short()),
            );
            return;
        }
        if o.is_crash() {
            return;
        }
    }
}

fn task<'h>(
    me: usize,
    hive: &Force<&'h Hive<SimBytes>>,
    base: usize,
    shared: &Force<Mutex<Shared<'h, '_>>>,
    sched: &Sched,
    ops: &[Step],
) {
    sched.start(me);
    for s in ops {
        let (c, mut f) = {
            let mut sh = shared.0.lock().unwrap();
            if sh.dead {
                break;
            }
            let Some(c) = sh.refs.resolve(&s.a) else { continue };
            let Some(f) = sh.t.fetch(&c) else { continue };
            sh.refs.take(&c);
            if let Call::KDrop(k) = &c {
                sh.refs.keys[*k] = None;
            }
            if let Call::VDrop(k) = &c {
                sh.refs.vals[*k] = None;
            }
            (c, f)
        };
        let (rec, new) = simdrv::perform(hive.0, base, &c, &mut f);
        {
            let mut sh = shared.0.lock().unwrap();
            sh.t.commit(&c, f, new);
            let (_, go) = sh.refs.follow(&c, &rec);
            sh.ticks += rec.use_.steps;
            sh.log.push((me, c, rec.obs));
            if !go {
                sh.dead = true;
            }
        }
        sched.point();
    }
    sched.finish(me);
}
