//! Executes scenarios. Every function here is a function of the scenario (and of the code under test).
use crate::scen::{Scen, Step};
use simcore::disk::{apply_fault, Disk};
use simcore::model::Line;
use simcore::obs::{Obs, RErr, Rec};
use simcore::ops::{Call, Viol, C, G};
use simcore::refreader::Img;
use simcore::ops::iter_of;
use simcore::refsession::RefS;
use simcore::rng::{hash_bytes, mix, Rng};
use simcore::seam::{with_hook, SimBytes, SimBytesMut};
use simcore::writer::Writer;
use simdrv::{Hive, Tables};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
pub struct Out {
    pub viols: Vec<Viol>,
    pub hash: u64,
    pub stats: BTreeMap<String, u64>,
    pub max: BTreeMap<String, u64>,
    pub nontrivial: bool,
    /// Something is wrong with the simulator itself.
    pub harness: Option<String>,
    /// Identity of the interleaving / fault history, for counting distinct ones.
    pub shape: u64,
}

impl Out {
    pub fn n(&mut self, k: &str, v: u64) {
        if v > 0 {
            if let Some(x) = self.stats.get_mut(k) {
                *x += v;
            } else {
                self.stats.insert(k.into(), v);
            }
        }
    }
    pub fn mx(&mut self, k: &str, v: u64) {
        let e = self.max.entry(k.into()).or_default();
        *e = (*e).max(v);
    }
    pub fn h(&mut self, x: u64) {
        self.hash = mix(self.hash ^ x);
    }
    pub fn shape(&mut self, x: u64) {
        self.shape = mix(self.shape ^ x);
    }
    pub fn viol(&mut self, g: G, c: C, damaged: bool, msg: String) {
        self.viols.push(Viol { g, c, msg, damaged });
    }
    fn usage(&mut self, r: &Rec) {
        self.n("ticks", r.use_.steps);
        self.n("calls", 1);
        self.mx("stack", r.use_.stack as u64);
    }
}

/// Memory for an image, at an address that is a function of what the process holds at that moment.
pub struct Buf {
    start: usize,
    off: usize,
    len: usize,
}
const ARENA: usize = 0x5000_0000_0000;
const ARENA_LEN: usize = 64 << 30;
static HELD: std::sync::Mutex<Vec<(usize, usize)>> = std::sync::Mutex::new(vec![]);
static ARENA_THERE: std::sync::OnceLock<()> = std::sync::OnceLock::new();
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
impl Buf {
    /// `align` is the offset of the first byte from an address that is a multiple of 64 KiB.
    pub fn new(b: &[u8], align: u64) -> Buf {
        ARENA_THERE.get_or_init(|| {
            // private, anonymous, no reservation, at this address
            let p = unsafe { mmap(ARENA as *mut u8, ARENA_LEN, 3, 0x2 | 0x20 | 0x4000 | 0x10_0000, -1, 0) };
            if p as usize != ARENA {
                eprintln!("simulator: no arena");
                std::process::exit(3);
            }
        });
        let off = (align % 65536) as usize;
        let total = (off + b.len() + 64).div_ceil(65536) * 65536;
        let mut held = HELD.lock().unwrap_or_else(|e| e.into_inner());
        let (mut start, mut at) = (ARENA, 0);
        for (k, (s, e)) in held.iter().enumerate() {
            if s - start >= total {
                break;
            }
            (start, at) = (*e, k + 1);
        }
        if start + total > ARENA + ARENA_LEN {
            eprintln!("simulator: arena full");
            std::process::exit(3);
        }
        held.insert(at, (start, start + total));
        drop(held);
        let p = start as *mut u8;
        unsafe {
            std::ptr::write_bytes(p, 0xa5, off);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(off), b.len());
            std::ptr::write_bytes(p.add(off + b.len()), 0xa5, 64.min(total - off - b.len()));
        }
        Buf { start, off, len: b.len() }
    }
    pub fn ptr(&self) -> *mut u8 {
        (self.start + self.off) as *mut u8
    }
    pub fn base(&self) -> usize {
        self.ptr() as usize
    }
    pub fn bytes(&self) -> Vec<u8> {
        unsafe { std::slice::from_raw_parts(self.ptr(), self.len).to_vec() }
    }
    pub fn sim(&self) -> SimBytes {
        unsafe { SimBytes::new(self.ptr(), self.len) }
    }
    pub fn sim_mut(&self) -> SimBytesMut {
        unsafe { SimBytesMut::new(self.ptr(), self.len) }
    }
}

impl Drop for Buf {
    fn drop(&mut self) {
        HELD.lock().unwrap_or_else(|e| e.into_inner()).retain(|x| x.0 != self.start);
    }
}

pub struct World {
    pub w: Writer,
    pub d: Disk,
}

impl World {
    pub fn new(sc: &Scen) -> World {
        let mut w = Writer::new(sc.cfg("minor", 5) as u32, sc.cfg("root", 0));
        w.slack = sc.cfg("slack", 0);
        w.steer = sc.cfg("steer", 0);
        w.dress = sc.cfg("dress", 0);
        World { w, d: Disk::new(sc.cfg("seq", 1) as u32) }
    }

    /// Interprets steps of the writer and of the storage. False: not one of those.
    pub fn apply(&mut self, s: &Step, out: &mut Out) -> bool {
        let g = |i: usize| s.a.get(i).copied().unwrap_or(0);
        match s.tag.as_str() {
            "mk" | "mkd" | "bulk" | "rmk" | "ren" | "setv" | "bulkv" | "rmv" | "cls" | "lay" | "layall" | "vol" | "volall"
            | "slack" | "form" | "steer" => {
                self.w.op(&s.tag, &s.a);
                out.n("writer_ops", 1);
            }
            "flush" => {
                let first = self.d.file.is_empty();
                let hurt = self.d.flush(&mut self.w, g(0), g(1));
                out.n("flushes", 1);
                if !first {
                    match g(0) {
                        0 => out.n("fault:crash_before_flush", 1),
                        1 => out.n("fault:crash_in_first_header_write", 1),
                        2 => out.n("fault:crash_after_first_header_write", 1),
                        3..=5 => out.n("fault:crash_in_data_writes", 1),
                        6 => out.n("fault:crash_in_second_header_write", 1),
                        7 => out.n("fault:file_growth_lost", hurt),
                        _ => {}
                    }
                    out.n("fault:sector_lost_or_torn_in_crash", hurt);
                    out.shape(mix(g(0).min(8) * 1000 + hurt));
                }
            }
            "flip" | "fld" | "kfld" | "alias" | "sec" | "trunc" | "ext" | "garb" | "sum" => {
                if let Some(n) = self.d.fault(&s.tag, &s.a) {
                    out.n(&format!("fault:{n}"), 1);
                    out.nontrivial = true;
                    out.shape(hash_bytes(n.as_bytes(), mix(g(0) ^ g(1).rotate_left(20))));
                }
            }
            _ => return false,
        }
        true
    }
}

pub fn exec(sc: &Scen) -> Out {
    let mut out = Out::default();
    match sc.cfg("kind", 0) {
        0 => session(sc, &mut out),
        1 => iterators(sc, &mut out),
        2 => clearing(sc, &mut out),
        3 => crate::threads::threads(sc, &mut out),
        4 => crate::places::places(sc, &mut out),
        5 => crate::tool::tool(sc, &mut out),
        6 => crate::plat::one(sc, &mut out),
        k => out.harness = Some(format!("unknown kind {k}")),
    }
    out
}

/// Whether the simulator sees more of a call than its accesses to the hive bytes.
pub fn instrumented() -> bool {
    let mut w = Writer::new(5, 0);
    let mut d = Disk::new(1);
    d.flush(&mut w, 9, 0);
    let buf = Buf::new(&d.file, 0);
    let (_, Some(h)) = simdrv::open(buf.sim(), false) else { return true };
    let r = simdrv::step(&h, buf.base(), &mut Tables::default(), &Call::Root);
    r.use_.steps > r.use_.derefs + 3
}

// ---------------------------------------------------------------- sessions judged by the reference

fn session(sc: &Scen, out: &mut Out) {
    let mut world = World::new(sc);
    let mut i = 0;
    while i < sc.steps.len() && out.harness.is_none() {
        let s = &sc.steps[i];
        i += 1;
        if world.apply(s, out) || s.tag != "boot" {
            continue;
        }
        let mut j = i;
        while j < sc.steps.len() && matches!(sc.steps[j].tag.as_str(), "r" | "walk" | "chk" | "clr" | "d") {
            j += 1;
        }
        boot(&world, s.a.first().copied().unwrap_or(0), &sc.steps[i..j], sc, out);
        i = j;
    }
    if matches!(sc.prop.as_str(), "C05" | "C06" | "C07" | "C14" | "C16") {
        out.nontrivial |= out.stats.get("calls").copied().unwrap_or(0) > 8;
    }
}

/// Checks what opening said against what the header says.
fn judge_open(img: &Img, rec: &Rec, validate: bool, damaged: bool, g: G, out: &mut Out) {
    let what = match (g, validate) {
        (G::Header, _) => "Hive::validate",
        (_, true) => "Hive::new",
        _ => "Hive::without_validation",
    };
    out.usage(rec);
    out.h(rec.obs.hash());
    let exp = if validate { img.broken_rules() } else { img.open_err().into_iter().collect() };
    match &rec.obs {
        Obs::Panic(m) => return out.viol(g, C::Panic, damaged, format!("{what} panicked: {m}")),
        Obs::Steps => return out.viol(g, C::Endless, damaged, format!("{what} did not finish within its step budget")),
        Obs::Stack => return out.viol(g, C::Stack, damaged, format!("{what} used too much stack")),
        Obs::Unit if !exp.is_empty() => out.viol(g, C::Missed, damaged, format!("{what} accepted a header with {exp:?}")),
        Obs::Unit => {}
        Obs::Err(e) if exp.is_empty() => out.viol(g, C::Spurious, damaged, format!("{what} rejected a valid header: {e:?}")),
        Obs::Err(e) if !exp.contains(e) => out.viol(g, C::WrongErr, damaged, format!("{what}: {e:?} instead of {exp:?}")),
        Obs::Err(_) => {}
        o => out.viol(g, C::Value, damaged, format!("{what}: {}", o.short())),
    }
    if rec.use_.allocs > 0 {
        out.viol(g, C::Alloc, damaged, format!("{what} made {} heap allocations", rec.use_.allocs));
    }
    if rec.use_.steps > 100_000 {
        out.viol(g, C::Cost, damaged, format!("{what} took {} steps", rec.use_.steps));
    }
}

fn boot(world: &World, mode: u64, steps: &[Step], sc: &Scen, out: &mut Out) {
    let img0 = &world.d.file;
    let damaged = world.d.faulty || !world.d.clean;
    let img = Img { b: img0 };
    out.n("boots", 1);
    out.h(hash_bytes(img0, 5));
    if !damaged {
        if img.dump() != world.d.committed || !img.broken_rules().is_empty() {
            out.harness = Some("reference reader disagrees with the model".into());
            return;
        }
    }
    let align = sc.cfg("align", 0);
    let buf = Buf::new(img0, align);
    let mut hive: Option<Hive<SimBytes>> = None;
    if mode != 1 {
        let (rec, h) = simdrv::open(buf.sim(), true);
        judge_open(&img, &rec, true, damaged, G::Open, out);
        if rec.obs.is_err() {
            out.n("opens_rejected", 1);
        }
        if mode == 3 {
            crash_boot(world, &rec, h.as_ref(), out);
        }
        hive = h;
    }
    if mode != 0 || hive.is_none() {
        let (rec, h) = simdrv::open(buf.sim(), false);
        judge_open(&img, &rec, false, damaged, if mode == 3 { G::Crash } else { G::Open }, out);
        if let Some(h) = &h {
            let mut t = Tables::default();
            for (c, want) in [(Call::Major, img.u32(20)), (Call::Minor, img.u32(24))] {
                let r = simdrv::step(h, buf.base(), &mut t, &c);
                out.usage(&r);
                if r.obs != Obs::Num(want as u64) {
                    let cl = if r.obs.is_crash() { C::Panic } else { C::Value };
                    out.viol(G::Header, cl, damaged, format!("{c:?}: {} instead of {want}", r.obs.short()));
                }
            }
            let r = simdrv::step(h, buf.base(), &mut t, &Call::Validate);
            judge_open(&img, &r, true, damaged, G::Header, out);
        }
        hive = h;
    }
    let Some(hive) = hive else {
        return;
    };
    let arena: RefCell<Vec<Box<[u8]>>> = RefCell::new(Vec::new());
    let mut live = Live {
        hive: &hive,
        buf: &buf,
        t: Tables::default(),
        refs: RefS::new(img, damaged),
        loose: false,
        out,
        follow_on: sc.prop == "C01",
        budget: 200_000,
    };
    for s in steps {
        let g = |i: usize| s.a.get(i).copied().unwrap_or(0);
        let go = match s.tag.as_str() {
            "r" => match live.refs.resolve(&s.a) {
                Some(c) => live.call(&c),
                None => true,
            },
            "walk" => live.walk(g(0), g(1), g(2)),
            "chk" => live.chk(world),
            "clr" => {
                let b = live.buf.bytes();
                clear_check(&b, damaged, live.out);
                true
            }
            "d" => {
                let tag = ["flip", "fld", "kfld", "sec", "garb"][(g(0) % 5) as usize];
                let mut v = live.buf.bytes();
                if let Some(n) = apply_fault(&mut v, &world.d.past, tag, &s.a[1..]) {
                    unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), buf.ptr(), v.len()) };
                    live.out.n(&format!("fault:in_session_{n}"), 1);
                    live.out.nontrivial = true;
                    let mut a = arena.borrow_mut();
                    a.push(v.into_boxed_slice());
                    let p: &[u8] = a.last().unwrap();
                    // The boxes live, unmoved, until the arena goes, which is after `live`.
                    live.refs.img = Img { b: unsafe { std::slice::from_raw_parts(p.as_ptr(), p.len()) } };
                    live.loose = true;
                }
                true
            }
            _ => true,
        };
        if !go || live.out.harness.is_some() {
            break;
        }
    }
    let (w, w2, wc) = (live.refs.worst.0, live.refs.worst.1, live.refs.worst_call.clone());
    let churn = live.refs.churn;
    drop(live);
    out.mx("churn_permille", churn);
    out.mx("cost_permille_steps", w);
    out.mx("cost_permille_derefs", w2);
    if std::env::var_os("SIM_WORST").is_some() && (w > 300 || w2 > 300) {
        eprintln!("worst {w} {w2} {wc}");
    }
    if std::env::var_os("SIM_WORST").is_some() && churn > 300 {
        eprintln!("churn {churn}");
    }
    // Reading must not write.
    if steps.iter().all(|s| s.tag != "d") && buf.bytes() != *img0 {
        out.viol(G::Nav, C::Write, damaged, "reading changed the buffer".into());
    }
}

/// A validated open of whatever the crashed operating system left behind.
fn crash_boot(world: &World, rec: &Rec, h: Option<&Hive<SimBytes>>, out: &mut Out) {
    let d = &world.d;
    out.nontrivial = true;
    match h {
        None => {
            out.n("crash_rejected", 1);
            if d.clean && !d.faulty {
                out.viol(G::Crash, C::Spurious, false, format!("a hive whose flush completed was rejected: {}", rec.obs.short()));
            }
        }
        Some(h) => {
            out.n(if d.clean { "crash_opened_clean" } else { "crash_opened_unclean" }, 1);
            if d.faulty {
                return;
            }
            match simdrv::dump(h) {
                Ok(l) => {
                    let old = d.committed.as_ref() == Some(&l);
                    let new = d.inflight.contains(&l);
                    if !old && !new {
                        out.viol(
                            G::Crash,
                            C::Value,
                            false,
                            format!("validated open exposed a state that was never committed ({} lines)", l.len()),
                        );
                    }
                }
                Err((what, o)) => out.viol(
                    G::Crash,
                    C::Value,
                    false,
                    format!("validated open exposed a state that is neither the old nor the new one: {what}: {}", o.short()),
                ),
            }
        }
    }
}

pub struct Live<'h, 'r, 'o> {
    pub hive: &'h Hive<SimBytes>,
    pub buf: &'h Buf,
    pub t: Tables<'h, SimBytes>,
    pub refs: RefS<'r>,
    pub loose: bool,
    pub out: &'o mut Out,
    follow_on: bool,
    budget: u64,
}

impl<'h, 'r, 'o> Live<'h, 'r, 'o> {
    fn call(&mut self, c: &Call) -> bool {
        if self.budget == 0 {
            return false;
        }
        self.budget -= 1;
        self.refs.take(c);
        let rec = simdrv::step(self.hive, self.buf.base(), &mut self.t, c);
        self.out.usage(&rec);
        self.out.h(rec.obs.hash());
        if rec.obs.is_err() {
            self.out.n("errors_returned", 1);
        }
        let go = if self.loose {
            let (v, go) = self.refs.follow(c, &rec);
            self.out.viols.extend(v);
            go
        } else {
            let (v, go) = self.refs.check(c, &rec);
            self.out.viols.extend(v);
            if !go && self.follow_on && !rec.obs.is_crash() {
                self.loose = true;
                self.refs.follow(c, &rec).1
            } else {
                go
            }
        };
        if go && (self.t.keys.len() != self.refs.keys.len() || self.t.vals.len() != self.refs.vals.len() || self.t.its.len() != self.refs.its.len()) {
            self.out.harness = Some(format!("handle tables out of step after {c:?}: {}", rec.obs.short()));
        }
        if go && iter_of(c).is_some_and(|i| self.t.its[i].is_none() && !matches!(c, Call::IDrop(_))) {
            self.out.harness = Some(format!("iterator lost in {c:?}"));
        }
        go
    }

    fn last_none(&self, i: usize) -> bool {
        self.refs.its[i].as_ref().is_none_or(|it| self.refs.left(it) == 0)
    }

    /// Exhausts iterator `i`, then asks it once more.
    fn exhaust(&mut self, i: usize) -> bool {
        let mut n = 0;
        loop {
            let end = self.last_none(i);
            if !self.call(&Call::INext(i)) {
                return false;
            }
            if end || n > 70_000 {
                return self.call(&Call::IDrop(i));
            }
            n += 1;
        }
    }

    /// Visits everything reachable. Mode bits: 1 names and attributes, 2 raw data, 4 typed data, 8 lookups,
    /// 16 iterator shortcuts, 32 owned texts and comparisons.
    fn walk(&mut self, mode: u64, seed: u64, max_keys: u64) -> bool {
        if self.loose {
            return true;
        }
        let mut r = Rng::new(seed);
        let n0 = self.refs.keys.len();
        if !self.call(&Call::Root) {
            return false;
        }
        let mut queue: Vec<usize> = (n0..self.refs.keys.len()).collect();
        let mut seen: BTreeSet<usize> = BTreeSet::new();
        let mut done = 0;
        let max_keys = if max_keys == 0 { 400 } else { max_keys };
        while let Some(k) = queue.pop() {
            let Some(nk) = self.refs.keys[k] else { continue };
            if !seen.insert(nk.at) || done >= max_keys {
                self.refs.keys[k] = None;
                self.t.keys[k] = None;
                continue;
            }
            done += 1;
            if mode & 1 != 0 && !(self.call(&Call::KName(k)) && self.call(&Call::KClass(k))) {
                return false;
            }
            if mode & 32 != 0 {
                for m in 0..4 {
                    if !self.call(&Call::KText(k, m)) {
                        return false;
                    }
                }
            }
            // values
            let n = self.refs.its.len();
            if !self.call(&Call::KVals(k)) {
                return false;
            }
            if self.refs.its.len() > n {
                let v0 = self.refs.vals.len();
                if mode & 16 != 0 && !self.shortcuts(n, &mut r) {
                    return false;
                }
                if !self.exhaust(n) {
                    return false;
                }
                let (v1, many) = (self.refs.vals.len(), self.refs.vals.len() - v0 > 4000);
                for v in v0..v1 {
                    // Of very many, those at the ends and past 16 bits.
                    let i = v - v0;
                    if many && !(i < 200 || v + 200 > v1 || (65_400..65_700).contains(&i)) {
                        self.refs.vals[v] = None;
                        self.t.vals[v] = None;
                    }
                }
                for v in v0..v1 {
                    if self.refs.vals[v].is_none() {
                        continue;
                    }
                    if !self.visit_value(v, mode, &mut r) {
                        return false;
                    }
                    if mode & 8 == 0 {
                        self.refs.vals[v] = None;
                        self.t.vals[v] = None;
                    }
                }
                if mode & 8 != 0 {
                    let p = self.refs.pos_key(k);
                    for v in v0..self.refs.vals.len().min(v0 + 24) {
                        let i = if many { r.next() } else { (v - v0) as u64 };
                        if let Some(c) = self.refs.resolve(&[5, p, r.pick(&[0, 0, 2, 4, 5, 6, 7, 8, 9, 10]), i, r.next()]) {
                            if !self.call(&c) {
                                return false;
                            }
                        }
                    }
                    for v in v0..self.refs.vals.len() {
                        self.refs.vals[v] = None;
                        self.t.vals[v] = None;
                    }
                }
            }
            // subkeys
            let n = self.refs.its.len();
            if !self.call(&Call::KSubs(k)) {
                return false;
            }
            if self.refs.its.len() > n {
                let k0 = self.refs.keys.len();
                if mode & 16 != 0 && !self.shortcuts(n, &mut r) {
                    return false;
                }
                if !self.exhaust(n) {
                    return false;
                }
                let k1 = self.refs.keys.len();
                if mode & 32 != 0 {
                    for x in k0..k1.saturating_sub(1) {
                        if !self.call(&Call::KCmp(x, x + 1)) {
                            return false;
                        }
                    }
                }
                if mode & 8 != 0 {
                    let p = self.refs.pos_key(k);
                    let count = (k1 - k0) as u64;
                    for x in 0..count.min(40) {
                        let i = if count > 40 { r.next() } else { x };
                        for variant in [0, r.pick(&[2, 2, 4, 5, 6, 7, 8, 9, 10, 11])] {
                            if let Some(c) = self.refs.resolve(&[3, p, variant, i, r.next()]) {
                                let before = self.refs.keys.len();
                                if !self.call(&c) {
                                    return false;
                                }
                                for y in before..self.refs.keys.len() {
                                    self.refs.keys[y] = None;
                                    self.t.keys[y] = None;
                                }
                            }
                        }
                    }
                    for _ in 0..2 {
                        if let Some(c) = self.refs.resolve(&[4, p, r.next(), 0, r.next()]) {
                            if !self.call(&c) {
                                return false;
                            }
                        }
                    }
                }
                queue.extend((k0..k1).rev());
            }
            self.refs.keys[k] = None;
            self.t.keys[k] = None;
        }
        self.out.n("keys_walked", done);
        true
    }

    fn shortcuts(&mut self, i: usize, r: &mut Rng) -> bool {
        for _ in 0..3 {
            let c = match r.idx(6) {
                0 => Call::IHint(i),
                1 => Call::ILen(i),
                2 | 3 => {
                    let n = self.refs.its.len();
                    if !self.call(&Call::IClone(i)) {
                        return false;
                    }
                    let left = self.refs.its[n].as_ref().map_or(0, |it| self.refs.left(it));
                    let a = r.pick(&[0, 1, left / 2, left.saturating_sub(1), left, left + 1, usize::MAX, usize::MAX / 4]);
                    if !self.call(&Call::INth(n, a)) {
                        return false;
                    }
                    if !self.call(&Call::INext(n)) {
                        return false;
                    }
                    Call::IDrop(n)
                }
                4 => Call::ILast(i),
                _ => Call::ICount(i),
            };
            // Not when a hostile list makes them expensive.
            if self.refs.its[i].as_ref().is_some_and(|it| self.refs.left(it) > 50_000) {
                continue;
            }
            if !self.call(&c) {
                return false;
            }
        }
        true
    }

    fn visit_value(&mut self, v: usize, mode: u64, r: &mut Rng) -> bool {
        let p = self.refs.pos_val(v);
        let mut codes: Vec<u64> = Vec::new();
        if mode & 1 != 0 {
            codes.extend([20, 21, 22]);
        }
        if mode & 2 != 0 {
            codes.extend([23, 24]);
        }
        if mode & 4 != 0 {
            codes.extend([25, 26, 27, 28]);
        }
        if mode & 32 != 0 {
            codes.extend([32, 33]);
        }
        for code in codes {
            let n = self.refs.its.len();
            let Some(c) = self.refs.resolve(&[code, p, r.below(3), 0, r.next()]) else { continue };
            if !self.call(&c) {
                return false;
            }
            if self.refs.its.len() > n {
                if mode & 16 != 0 && !self.shortcuts(n, r) {
                    return false;
                }
                if !self.exhaust(n) {
                    return false;
                }
            }
        }
        true
    }

    /// The whole tree, through the public API, against what was committed.
    fn chk(&mut self, world: &World) -> bool {
        if self.refs.damaged || self.loose {
            return true;
        }
        self.out.n("tree_checks", 1);
        self.out.nontrivial |= world.w.live().len() > 1;
        let want = world.d.committed.as_ref().unwrap();
        match simdrv::dump(self.hive) {
            Ok(l) if l == *want => true,
            Ok(l) => {
                self.out.viol(G::Dump, C::Value, false, first_difference(&l, want));
                false
            }
            Err((what, o)) => {
                let c = match o {
                    Obs::Panic(_) => C::Panic,
                    Obs::Stack => C::Stack,
                    Obs::Steps => C::Endless,
                    _ => C::Spurious,
                };
                self.out.viol(G::Dump, c, false, format!("walking the committed tree: {what}: {}", o.short()));
                false
            }
        }
    }
}

pub fn first_difference(got: &[Line], want: &[Line]) -> String {
    for i in 0..got.len().max(want.len()) {
        if got.get(i) != want.get(i) {
            let s = |l: Option<&Line>| {
                let t = format!("{l:?}");
                t.chars().take(220).collect::<String>()
            };
            return format!("line {i} of the tree: {} instead of {}", s(got.get(i)), s(want.get(i)));
        }
    }
    "no difference".into()
}

// ---------------------------------------------------------------- clearing volatile subkey counts

pub struct Reach {
    /// File offsets of the volatile counts of all keys reachable from the root.
    pub fields: BTreeSet<usize>,
    pub err: bool,
    pub shared: bool,
    pub depth: u32,
    pub visits: u64,
    /// A volatile count is also part of some other structure, so clearing it may change what is there.
    pub overlap: bool,
    /// What can truthfully be said of the keys that cannot be read.
    pub errs: Vec<RErr>,
    /// Everything else that is read on the way, as (start, end).
    ext: Vec<(usize, usize)>,
}

/// Which keys clearing has to visit.
pub fn reach(img: &Img) -> Reach {
    let mut r = Reach { fields: BTreeSet::new(), err: false, shared: false, depth: 0, visits: 0, overlap: false, errs: vec![], ext: vec![(0, 4096)] };
    r.cell(img.u32(36));
    match img.root() {
        Ok(k) => reach_key(img, k, 1, &mut r),
        Err(e) => r.fail(e),
    }
    let f: Vec<usize> = r.fields.iter().copied().collect();
    r.overlap = f.windows(2).any(|w| w[1] - w[0] < 4);
    for &(a, b) in &r.ext {
        let i = f.partition_point(|&x| x + 4 <= a);
        r.overlap |= f.get(i).is_some_and(|&x| x < b);
    }
    r
}

impl Reach {
    fn fail(&mut self, e: Vec<RErr>) {
        self.err = true;
        if self.errs.len() < 4096 {
            self.errs.extend(e);
        }
    }

    fn add(&mut self, at: usize, len: usize) {
        self.ext.push((at, at + len));
    }

    /// The header of a cell, and the signature and count of what is in it.
    fn cell(&mut self, off: u32) {
        self.add(4096 + off as usize, 8);
    }

    /// All that belongs to a key except the volatile count.
    fn key(&mut self, img: &Img, k: simcore::refreader::Nk) {
        use simcore::refreader::{DataAt, LeafSpan, NONE};
        self.add(k.at - 4, 28);
        self.add(k.at + 28, 48);
        if let Ok(n) = img.nk_name(k) {
            self.add(n.at, n.len);
        }
        if let Some(c) = img.class(k) {
            self.cell(img.u32(k.at + 48));
            if let Ok(n) = c {
                self.add(n.at, n.len);
            }
        }
        if img.u32(k.at + 28) != NONE {
            self.cell(img.u32(k.at + 28));
        }
        if let Some(Ok(l)) = img.subs(k) {
            if l.ri {
                let start = 4096 + img.u32(k.at + 28) as usize + 8;
                self.add(start, 4 * l.spans.len());
                for i in 0..l.spans.len() {
                    self.cell(img.u32(start + 4 * i));
                }
            }
            for s in &l.spans {
                if let LeafSpan::Items { start, size, count } = s {
                    self.add(*start, size * count);
                    for i in 0..*count {
                        self.cell(img.u32(start + size * i));
                    }
                }
            }
        }
        if img.u32(k.at + 40) != NONE {
            self.cell(img.u32(k.at + 40));
        }
        if let Some(Ok(l)) = img.values(k) {
            self.add(l.start, 4 * l.count);
            for i in 0..l.count {
                self.cell(img.u32(l.start + 4 * i));
                let Ok(v) = img.val_at(&l, i) else { continue };
                self.add(v.at, 20);
                if let Ok(n) = img.vk_name(v) {
                    self.add(n.at, n.len);
                }
                if img.u32(v.at + 4) & 0x8000_0000 == 0 {
                    self.cell(img.u32(v.at + 8));
                    let db = 4096 + img.u32(v.at + 8) as usize;
                    self.add(db, 12);
                    if db + 12 <= img.b.len() {
                        self.cell(img.u32(db + 8));
                    }
                }
                match img.data(v) {
                    Ok(DataAt::Small { at, len }) => self.add(at, len),
                    Ok(DataAt::Big(d)) => {
                        self.add(d.list - 4, 4 + 4 * d.segs());
                        for j in 0..d.segs() {
                            self.cell(img.u32(d.list + 4 * j));
                            if let Ok(s) = img.seg(&d, j) {
                                self.add(s.start, s.len);
                            }
                        }
                    }
                    Err(_) => {}
                }
            }
        }
    }
}

fn reach_key(img: &Img, k: simcore::refreader::Nk, depth: u32, r: &mut Reach) {
    r.depth = r.depth.max(depth);
    r.visits += 1;
    if !r.fields.insert(k.at + 24) {
        r.shared = true;
        return;
    }
    r.key(img, k);
    if depth > 5000 {
        r.err = true;
        return;
    }
    match img.subs(k) {
        None => {}
        Some(Err(e)) => r.fail(e),
        Some(Ok(l)) => {
            if l.total > 200_000 {
                r.shared = true;
                r.err = true;
                return;
            }
            for i in 0..l.total {
                match img.sub_at(&l, i) {
                    Ok(s) => reach_key(img, s, depth + 1, r),
                    Err(e) => r.fail(e),
                }
            }
        }
    }
}

pub fn clear_budget(len: usize) -> u64 {
    // A key node takes at least 80 bytes; visiting one costs some hundred basic blocks.
    (len as u64 / 80 + 64) * 4000
}

fn same_but_cleared(orig: &[u8], now: &[u8], fields: &BTreeSet<usize>) -> Result<u64, String> {
    let mut x = orig.to_vec();
    let mut cleared = 0;
    for &f in fields {
        let old = &orig[f..f + 4];
        let new = &now[f..f + 4];
        if new == [0; 4] {
            cleared += 1;
            x[f..f + 4].fill(0);
        } else if new != old {
            return Err(format!("volatile count at {f} is {new:?}, was {old:?}"));
        }
    }
    if x == now {
        return Ok(cleared);
    }
    let at = (0..x.len()).find(|&i| x[i] != now[i]).unwrap();
    Err(format!("byte {at} changed from {:#x} to {:#x}; it is not part of a volatile count of a reachable key", orig[at], now[at]))
}

/// Runs clear_volatile_subkeys on a copy and judges the result.
pub fn clear_check(orig: &[u8], damaged: bool, out: &mut Out) -> Option<(Obs, Vec<u8>)> {
    let img = Img { b: orig };
    if img.open_err().is_some() {
        return None;
    }
    let re = reach(&img);
    let buf = Buf::new(orig, 0);
    let rec = simdrv::clear(buf.sim_mut(), clear_budget(orig.len()));
    out.usage(&rec);
    out.h(rec.obs.hash());
    let now = buf.bytes();
    judge_clear(orig, &now, &re, &rec, damaged, out);
    Some((rec.obs, now))
}

fn judge_clear(orig: &[u8], now: &[u8], re: &Reach, rec: &Rec, damaged: bool, out: &mut Out) {
    let what = "clear_volatile_subkeys";
    out.mx("clear_permille", rec.use_.steps * 1000 / clear_budget(orig.len()));
    match &rec.obs {
        Obs::Panic(m) => return out.viol(G::Clear, C::Panic, damaged, format!("{what} panicked: {m}")),
        Obs::Steps => {
            return out.viol(
                G::Clear,
                C::Endless,
                damaged,
                format!("{what} did {} steps on an image of {} bytes and was not done", rec.use_.steps, orig.len()),
            )
        }
        Obs::Stack => return out.viol(G::Clear, C::Stack, damaged, format!("{what} used too much stack")),
        _ => {}
    }
    if rec.use_.allocs > 0 {
        out.viol(G::Clear, C::Alloc, damaged, format!("{what} made {} heap allocations", rec.use_.allocs));
    }
    if re.overlap {
        // Two structures claim the same bytes: what the others say changes under way.
        out.n("overlapping", 1);
        return;
    }
    if let Err(m) = same_but_cleared(orig, now, &re.fields) {
        out.viol(G::Clear, C::Write, damaged, format!("{what}: {m}"));
    }
    let hostile = re.shared || re.depth > 512;
    match &rec.obs {
        Obs::Unit => {
            if re.err {
                out.viol(G::Clear, C::Missed, damaged, format!("{what} succeeded although a key cannot be read"));
            }
            if let Some(f) = re.fields.iter().find(|&&f| now[f..f + 4] != [0; 4]) {
                out.viol(G::Clear, C::Value, damaged, format!("{what} succeeded but the volatile count at {f} is not zero"));
            }
        }
        Obs::Err(e) => {
            if !re.err && !hostile {
                out.viol(G::Clear, C::Spurious, damaged, format!("{what} failed although every key can be read: {e:?}"));
            } else if re.errs.len() < 4096 && !re.errs.contains(e) {
                // A tree that is no tree: the error names one of its keys.
                let nesting = match e {
                    RErr::Other(t) => t.strip_prefix("InvalidKeyNodeNesting { offset: ").and_then(|t| t.strip_suffix(" }")),
                    _ => None,
                };
                let named = nesting.and_then(|t| t.parse::<usize>().ok()).is_some_and(|at| re.fields.contains(&(at + 24)));
                if !(hostile && named) {
                    let some: Vec<&RErr> = re.errs.iter().take(4).collect();
                    out.viol(G::Clear, C::WrongErr, damaged, format!("{what}: {e:?} instead of {some:?} ({} in all)", re.errs.len()));
                }
            }
        }
        o => out.viol(G::Clear, C::Value, damaged, format!("{what}: {}", o.short())),
    }
}

fn clearing(sc: &Scen, out: &mut Out) {
    let mut world = World::new(sc);
    let mut cuts: Vec<u64> = Vec::new();
    for s in &sc.steps {
        if s.tag == "cut" {
            cuts.push(s.a.first().copied().unwrap_or(0));
        } else {
            world.apply(s, out);
        }
    }
    let orig = world.d.file.clone();
    let damaged = world.d.faulty;
    let img = Img { b: &orig };
    if img.open_err().is_some() {
        return;
    }
    let re = reach(&img);
    out.h(hash_bytes(&orig, 3));
    out.n("keys_to_clear", re.fields.len() as u64);
    if re.fields.iter().any(|&f| orig[f..f + 4] != [0; 4]) {
        out.nontrivial = true;
    }
    // Dry run: how long it takes, and the final result.
    let Some((obs, fin)) = clear_check(&orig, damaged, out) else { return };
    if obs.is_crash() || re.overlap {
        return;
    }
    let total = {
        let buf = Buf::new(&orig, 0);
        let r = simdrv::clear(buf.sim_mut(), clear_budget(orig.len()));
        r.use_.steps.max(1)
    };
    // Watched run: the buffer is compared at regular instants and at each cut point.
    let buf = Buf::new(&orig, sc.cfg("align", 0));
    let every = if total < 4000 { 1 + sc.cfg("stride", 0) % 7 } else { total / 500 + sc.cfg("stride", 0) % 97 };
    let mut bad: Option<String> = None;
    let mut snaps: Vec<Vec<u8>> = Vec::new();
    let mut points: Vec<u64> = cuts.iter().map(|c| 1 + c % total).collect();
    points.sort();
    let start = simcore::seam::ctx(|c| c.steps.get());
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let mut instants = 0u64;
    let mut prev = orig.clone();
    let mut hook = |at: u64| {
        instants += 1;
        let now = buf.bytes();
        if now != prev {
            match same_but_cleared(&orig, &now, &re.fields) {
                Ok(n) => {
                    states.insert(n);
                }
                Err(m) => {
                    bad.get_or_insert(m);
                }
            }
            prev = now.clone();
        }
        while points.first().is_some_and(|&p| start + p <= at) {
            points.remove(0);
            snaps.push(now.clone());
        }
    };
    let rec = with_hook(every, &mut hook, || simdrv::clear(buf.sim_mut(), clear_budget(orig.len())));
    out.usage(&rec);
    out.n("instants_checked", instants);
    out.n("distinct_partial_states", states.len() as u64);
    out.n("fault:cut_off", snaps.len() as u64);
    out.shape(mix(states.len() as u64 ^ hash_bytes(&orig, 1)));
    if let Some(m) = bad {
        out.viol(G::Clear, C::Order, damaged, format!("in the middle of clear_volatile_subkeys: {m}"));
        return;
    }
    if rec.obs != obs || buf.bytes() != fin {
        out.viol(G::Clear, C::Depends, damaged, "two runs of clear_volatile_subkeys on the same bytes differ".into());
        return;
    }
    // Cut off: all reads are as before, and running it again completes it.
    let before = real_dump(&orig);
    for s in snaps {
        if real_dump(&s) != before {
            out.viol(G::Clear, C::Value, damaged, "reads differ after clear_volatile_subkeys was cut off".into());
            return;
        }
        let b2 = Buf::new(&s, 0);
        let r2 = simdrv::clear(b2.sim_mut(), clear_budget(orig.len()));
        out.usage(&r2);
        if r2.obs != obs {
            out.viol(G::Clear, C::Value, damaged, format!("running it again after a cut gives {} instead of {}", r2.obs.short(), obs.short()));
            return;
        }
        if obs == Obs::Unit && b2.bytes() != fin {
            out.viol(G::Clear, C::Value, damaged, "running it again after a cut does not complete it".into());
            return;
        }
    }
}

fn real_dump(b: &[u8]) -> Result<Vec<Line>, (String, Obs)> {
    let buf = Buf::new(b, 0);
    match simdrv::open(buf.sim(), false) {
        (_, Some(h)) => simdrv::dump(&h),
        (r, None) => Err(("open".into(), r.obs)),
    }
}

// ---------------------------------------------------------------- iterators against their own next()

fn iterators(sc: &Scen, out: &mut Out) {
    let mut world = World::new(sc);
    let mut ops: Vec<&Step> = Vec::new();
    for s in &sc.steps {
        if !world.apply(s, out) {
            ops.push(s);
        }
    }
    let img0 = world.d.file.clone();
    let damaged = world.d.faulty;
    let buf = Buf::new(&img0, 0);
    let (_, Some(hive)) = simdrv::open(buf.sim(), false) else { return };
    let base = buf.base();
    let mut t: Tables<SimBytes> = Tables::default();
    // What is still to come from each iterator, found out by next() on a twin.
    let mut truth: Vec<Option<(std::rc::Rc<Vec<Obs>>, usize)>> = Vec::new();
    const CAP: usize = 70_000;
    let hive = &hive;
    macro_rules! do_call {
        ($t:expr, $c:expr, $out:expr) => {
            it_call(hive, base, $t, $c, damaged, $out)
        };
    }
    if do_call!(&mut t, &Call::Root, out).is_none() {
        return;
    }
    if t.keys.is_empty() {
        return;
    }
    for s in ops {
        if s.tag != "i" {
            continue;
        }
        let g = |i: usize| s.a.get(i).copied().unwrap_or(0);
        let code = g(0) % 24;
        let bad = |out: &mut Out, c: &Call, got: &Obs, want: String| {
            out.viol(G::Iter, C::Value, damaged, format!("{c:?}: {} instead of {want}", got.short()));
        };
        if code < 8 {
            // make an iterator, and learn what a twin of it yields
            let c = if code < 4 || t.vals.is_empty() {
                let recent = t.keys.len().saturating_sub(6);
                let k = if g(2) % 2 == 0 { (g(1) % t.keys.len() as u64) as usize } else { recent + (g(1) % (t.keys.len() - recent) as u64) as usize };
                if code % 2 == 0 {
                    Call::KSubs(k)
                } else {
                    Call::KVals(k)
                }
            } else {
                let recent = t.vals.len().saturating_sub(6);
                let v = if g(2) % 2 == 0 { (g(1) % t.vals.len() as u64) as usize } else { recent + (g(1) % (t.vals.len() - recent) as u64) as usize };
                if code % 2 == 0 {
                    Call::VData(v)
                } else {
                    Call::VMulti(v)
                }
            };
            let n = t.its.len();
            if do_call!(&mut t, &c, out).is_none() {
                return;
            }
            if t.its.len() == n {
                continue;
            }
            let Some(Obs::List(mut l)) = do_call!(&mut t, &Call::ICollect(n, CAP), out) else { return };
            if l.last() != Some(&Obs::None) {
                // Endless (or nearly): a hostile image. Not used further.
                t.its[n] = None;
                truth.push(None);
                out.n("endless_iterators", 1);
                continue;
            }
            l.pop();
            for _ in 0..3 {
                let Some(o) = do_call!(&mut t, &Call::INext(n), out) else { return };
                if o != Obs::None {
                    bad(out, &Call::INext(n), &o, "None, which it had returned before".into());
                    return;
                }
            }
            t.its[n] = None;
            truth.push(None);
            if do_call!(&mut t, &c, out).is_none() {
                return;
            }
            if t.its.len() != n + 2 {
                bad(out, &c, &Obs::None, "the same iterator again".into());
                return;
            }
            out.n("iterators", 1);
            out.mx("items", l.len() as u64);
            out.nontrivial = true;
            truth.push(Some((std::rc::Rc::new(l), 0)));
            continue;
        }
        let alive: Vec<usize> = (0..t.its.len()).filter(|&i| t.its[i].is_some()).collect();
        if alive.is_empty() {
            continue;
        }
        let i = alive[(g(1) % alive.len() as u64) as usize];
        let (list, pos) = truth[i].clone().unwrap();
        let left = list.len() - pos;
        let at = |n: usize| -> Obs {
            if n < left {
                list[pos + n].clone()
            } else {
                Obs::None
            }
        };
        let c = match code {
            8..=11 => Call::INext(i),
            12..=16 => Call::INth(i, nth_arg(g(2), g(3), left)),
            17 => Call::IHint(i),
            18 => Call::ILen(i),
            19 => Call::ICount(i),
            20 => Call::ILast(i),
            21 | 22 => Call::IClone(i),
            _ => {
                if g(2) % 3 == 0 {
                    Call::IDrop(i)
                } else {
                    Call::ICollect(i, 1 + (g(2) % 9) as usize)
                }
            }
        };
        out.n("iterator_calls", 1);
        out.shape(code * 131 + left.min(9) as u64);
        let Some(o) = do_call!(&mut t, &c, out) else { return };
        let mut adv = 0usize;
        match &c {
            Call::INext(_) => {
                if o != at(0) {
                    return bad(out, &c, &o, at(0).short());
                }
                adv = 1;
            }
            Call::INth(_, n) => {
                if o != at(*n) {
                    return bad(out, &c, &o, format!("{} ({left} items were left)", at(*n).short()));
                }
                adv = n.saturating_add(1);
            }
            Call::IHint(_) => match o {
                Obs::Hint(lo, hi) if lo <= left && hi.is_none_or(|h| h >= left) => {}
                _ => return bad(out, &c, &o, format!("bounds on {left}")),
            },
            Call::ILen(_) => {
                if o != Obs::Skip && o != Obs::Num(left as u64) {
                    return bad(out, &c, &o, format!("{left}"));
                }
            }
            Call::ICount(_) => {
                if o != Obs::Num(left as u64) {
                    return bad(out, &c, &o, format!("{left}"));
                }
            }
            Call::ILast(_) => {
                let want = if left == 0 { Obs::None } else { at(left - 1) };
                if o != want {
                    return bad(out, &c, &o, want.short());
                }
            }
            Call::IClone(_) => truth.push(Some((list.clone(), pos))),
            Call::IDrop(_) => truth[i] = None,
            Call::ICollect(_, max) => {
                let Obs::List(l) = &o else { return };
                for (n, x) in l.iter().enumerate() {
                    if *x != at(n) {
                        return bad(out, &c, x, at(n).short());
                    }
                }
                adv = *max;
            }
            _ => {}
        }
        if adv > 0 {
            truth[i] = Some((list.clone(), pos + adv.min(left)));
        }
    }
}

fn it_call<'h>(
    hive: &'h Hive<SimBytes>,
    base: usize,
    t: &mut Tables<'h, SimBytes>,
    c: &Call,
    damaged: bool,
    out: &mut Out,
) -> Option<Obs> {
    let r = simdrv::step(hive, base, t, c);
    out.usage(&r);
    out.h(r.obs.hash());
    match &r.obs {
        Obs::Panic(m) => {
            out.viol(G::Iter, C::Panic, damaged, format!("{c:?} panicked: {m}"));
            None
        }
        Obs::Steps | Obs::Stack => {
            out.viol(G::Iter, C::Endless, damaged, format!("{c:?} did not finish"));
            None
        }
        o => Some(o.clone()),
    }
}

fn nth_arg(x: u64, y: u64, left: usize) -> usize {
    let left = left as u64;
    match x % 10 {
        0 => 0,
        1 => 1,
        2 | 3 => (y % (left + 2)) as usize,
        4 => left as usize,
        5 => (left.max(1) - 1) as usize,
        6 => {
            let d = [1usize, 2, 4, 8, 4080, 4086, 16344, 3][(y % 8) as usize];
            (usize::MAX / d).wrapping_add((y >> 8) as usize % 3)
        }
        7 => [u32::MAX as usize, (u32::MAX / 4) as usize + 1, 1 << 62, 1 << 63, 1 << 61, usize::MAX - left as usize]
            [(y % 6) as usize],
        8 => (left + 1) as usize,
        _ => (y % 5) as usize,
    }
}
