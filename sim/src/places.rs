//! The same bytes and calls at other places, in other kinds of byte slices, after other histories.
use crate::exec::{Buf, Out, World};
use crate::scen::{Scen, Step};
use simcore::disk::apply_fault;
use simcore::model::Line;
use simcore::obs::Obs;
use simcore::ops::{Call, C, G};
use simcore::refreader::Img;
use simcore::refsession::{show, RefS};
use simcore::rng::Rng;
use simcore::seam::SimBytes;
use simdrv::{Bytes, Shared, Tables};

#[derive(PartialEq)]
struct Result {
    open: [Obs; 2],
    calls: Vec<Obs>,
    dump: Option<std::result::Result<Vec<Line>, (String, Obs)>>,
}

fn run<B: Shared>(bytes: B, base: usize, calls: &[Call], dump: bool) -> Result {
    let (r1, h1) = simdrv::open(bytes.clone(), true);
    drop(h1);
    let (r2, h) = simdrv::open(bytes, false);
    let mut res = Result { open: [r1.obs, r2.obs], calls: vec![], dump: None };
    let Some(h) = h else { return res };
    let mut t = Tables::default();
    for c in calls {
        let rec = simdrv::step(&h, base, &mut t, c);
        let crash = rec.obs.is_crash();
        res.calls.push(rec.obs);
        if crash {
            return res;
        }
    }
    if dump {
        res.dump = Some(simdrv::dump(&h));
    }
    res
}

/// For byte slices that cannot be cloned: only opening and walking.
fn run_plain<B: Bytes>(mut make: impl FnMut() -> B) -> Result {
    let (r1, h1) = simdrv::open(make(), true);
    drop(h1);
    let (r2, h) = simdrv::open(make(), false);
    let dump = h.as_ref().map(|h| simdrv::dump(h));
    Result { open: [r1.obs, r2.obs], calls: vec![], dump }
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}

struct Map {
    p: *mut u8,
    len: usize,
}
impl Map {
    /// Anonymous memory; `low` below 2 GiB. The last page is inaccessible.
    /// Address space in which some address is a multiple of `unit`, with `len` bytes accessible from `before`
    /// bytes before it. Returns the map and that place's offset in it.
    fn across(len: usize, unit: usize, before: usize) -> Option<(Map, usize)> {
        let total = unit + 2 * len + (1 << 20);
        let p = unsafe { mmap(0x5800_0000_0000u64 as *mut u8, total, 0, 0x4022, -1, 0) };
        if p as isize == -1 {
            return None;
        }
        let m = Map { p, len: total };
        let edge = (p as usize + len + (1 << 16)).div_ceil(unit) * unit;
        let at = edge - before - p as usize;
        let (from, to) = (at & !4095, (at + len + 4095) & !4095);
        if unsafe { mprotect(p.add(from), to - from, 3) } != 0 {
            return None;
        }
        Some((m, at))
    }

    fn new(len: usize, low: bool) -> Option<Map> {
        let len = (len + 4095) / 4096 * 4096 + 4096;
        let flags = 0x22 | if low { 0x40 } else { 0 };
        let p = unsafe { mmap(if low { 0x4000_0000 } else { 0x5900_0000_0000u64 } as *mut u8, len, 3, flags, -1, 0) };
        if p as isize == -1 {
            return None;
        }
        unsafe { mprotect(p.add(len - 4096), 4096, 0) };
        Some(Map { p, len })
    }
}
impl Drop for Map {
    fn drop(&mut self) {
        unsafe { munmap(self.p, self.len) };
    }
}

/// An offset from a page boundary; from 16 on, one that puts something in the image next to a page boundary.
fn offset(img: &[u8], g: u64) -> u64 {
    if g < 16 {
        return g;
    }
    let mut r = Rng::new(g);
    let mut cells = vec![];
    let mut at = 4096;
    while at + 4 <= img.len() && cells.len() < 20_000 {
        if img[at..].starts_with(b"hbin") {
            at += 32;
            continue;
        }
        let size = i32::from_le_bytes(img[at..at + 4].try_into().unwrap()).unsigned_abs() as usize;
        cells.push(at);
        at += size.max(8) & !7;
    }
    let mut what = if cells.is_empty() || r.chance(100) { r.idx(img.len().max(1)) } else { cells[r.idx(cells.len())] };
    what += r.pick(&[0, 4, 4, 4, 4, 8, 80, 24, 12]);
    // the last byte of a page, the first of the next or something close
    let to = [65535, 65535, 0, 4095, 4095, 1, 65536 - 2, 65536 - 4, 65536 - r.idx(64), 32768][r.idx(10)];
    ((to + (1 << 40) - what) % 65536) as u64
}

const STACKED: usize = 96 << 10;

#[inline(never)]
fn on_stack(img: &[u8], at: u64, calls: &[Call], dump: bool) -> Result {
    let mut mem = [0u8; STACKED + 2 * 65536];
    // the stack is somewhere else in every process
    let shift = (65536 - mem.as_ptr() as usize % 65536) % 65536 + at as usize;
    let m = &mut mem[shift..shift + img.len()];
    m.copy_from_slice(img);
    let m: &[u8] = std::hint::black_box(m);
    run(m, m.as_ptr() as usize, calls, dump)
}

pub fn places(sc: &Scen, out: &mut Out) {
    let mut world = World::new(sc);
    let mut reads: Vec<&Step> = vec![];
    let mut variants: Vec<&Step> = vec![];
    for s in &sc.steps {
        match s.tag.as_str() {
            "r" => reads.push(s),
            "p" => variants.push(s),
            _ => {
                world.apply(s, out);
            }
        }
    }
    let img0 = world.d.file.clone();
    let past = world.d.past.clone();
    let damaged = world.d.faulty;
    let img = Img { b: &img0 };
    let dump = sc.cfg("dump", 1) == 1;
    // Baseline; decides which calls are made.
    let buf = Buf::new(&img0, 0);
    let mut calls: Vec<Call> = vec![];
    let mut usable = 0usize;
    {
        let (_, h) = simdrv::open(buf.sim(), false);
        if let Some(h) = h {
            let mut refs = RefS::new(img, damaged);
            let mut t: Tables<SimBytes> = Tables::default();
            for s in &reads {
                let Some(c) = refs.resolve(&s.a) else { continue };
                refs.take(&c);
                let rec = simdrv::step(&h, buf.base(), &mut t, &c);
                out.n("calls", 1);
                out.n("ticks", rec.use_.steps);
                let (_, go) = refs.follow(&c, &rec);
                if rec.obs.is_err() {
                    usable += 1;
                }
                calls.push(c);
                if !go {
                    break;
                }
            }
        }
    }
    out.n("errors_returned", usable as u64);
    let want = run(buf.sim(), buf.base(), &calls, dump);
    for o in &want.calls {
        out.h(o.hash());
    }
    if want.calls.last().is_some_and(|o| o.is_crash()) {
        return;
    }
    for v in variants {
        let g = |i: usize| v.a.get(i).copied().unwrap_or(0);
        let mut r = Rng::new(g(2));
        let (name, got, plain) = match g(0) % 14 {
            0 => {
                let b = Buf::new(&img0, offset(&img0, g(1)));
                ("other alignment", run(b.sim(), b.base(), &calls, dump), false)
            }
            1 => {
                let b = Buf::new(&img0, offset(&img0, g(1)));
                let s: &[u8] = unsafe { std::slice::from_raw_parts(b.ptr(), img0.len()) };
                ("plain slice", run(s, b.base(), &calls, dump), false)
            }
            2 => {
                let b = Buf::new(&img0, offset(&img0, g(1)));
                let res = run_plain(|| unsafe { std::slice::from_raw_parts_mut(b.ptr(), img0.len()) });
                ("mutable slice", res, true)
            }
            3 => {
                let b = Buf::new(&img0, offset(&img0, g(1)));
                let cell = std::cell::RefCell::new(unsafe { std::slice::from_raw_parts_mut(b.ptr(), img0.len()) });
                let res = run_plain(|| std::cell::Ref::map(cell.borrow(), |v| &**v));
                ("cell reference", res, true)
            }
            4 | 5 => {
                let low = g(0) % 14 == 4;
                let Some(m) = Map::new(img0.len() + 16, low) else { continue };
                // up to the inaccessible page, or at the start
                let at = if g(1) % 2 == 0 { m.len - 4096 - img0.len() } else { (g(1) % 16) as usize };
                unsafe { std::ptr::copy_nonoverlapping(img0.as_ptr(), m.p.add(at), img0.len()) };
                let s = unsafe { SimBytes::new(m.p.add(at), img0.len()) };
                (if low { "low memory" } else { "before a guard page" }, run(s, m.p as usize + at, &calls, dump), false)
            }
            6 => {
                if img0.len() > STACKED {
                    continue;
                }
                ("stack", on_stack(&img0, offset(&img0, g(1)), &calls, dump), false)
            }
            7 => {
                // Another hive was read at the same address before.
                let mut other = img0.clone();
                for _ in 0..1 + r.below(3) {
                    let tag = r.pick(&["flip", "fld", "sec", "garb"]);
                    apply_fault(&mut other, &past, tag, &[r.next(), r.next(), r.next(), r.next()]);
                }
                let b = Buf::new(&other, 0);
                let pre = run(b.sim(), b.base(), &calls, false);
                out.h(pre.calls.len() as u64);
                unsafe { std::ptr::copy_nonoverlapping(img0.as_ptr(), b.ptr(), img0.len()) };
                ("after another hive at the same address", run(b.sim(), b.base(), &calls, dump), false)
            }
            8 => {
                // Same hive object, other calls in between.
                let b = Buf::new(&img0, 0);
                let (r1, h1) = simdrv::open(b.sim(), true);
                drop(h1);
                let (r2, h) = simdrv::open(b.sim(), false);
                let mut res = Result { open: [r1.obs, r2.obs], calls: vec![], dump: None };
                if let Some(h) = h {
                    let mut noise_refs = RefS::new(img, damaged);
                    let mut noise: Tables<SimBytes> = Tables::default();
                    let mut t: Tables<SimBytes> = Tables::default();
                    let mut dead = false;
                    for c in &calls {
                        for _ in 0..r.below(4) {
                            if dead {
                                break;
                            }
                            let code = r.pick(&[0, 1, 3, 3, 4, 5, 6, 7, 20, 23, 24, 25, 26, 27, 40, 40, 41, 50]);
                            let Some(nc) = noise_refs.resolve(&[code, r.next(), r.next(), r.next(), r.next()]) else { continue };
                            noise_refs.take(&nc);
                            let rec = simdrv::step(&h, b.base(), &mut noise, &nc);
                            dead = !noise_refs.follow(&nc, &rec).1;
                        }
                        res.calls.push(simdrv::step(&h, b.base(), &mut t, c).obs);
                    }
                    if dump {
                        res.dump = Some(simdrv::dump(&h));
                    }
                }
                ("with other calls in between", res, false)
            }
            9 => {
                // A thread that has done nothing else.
                let b = Buf::new(&img0, 0);
                let (s, base, calls) = (b.sim(), b.base(), &calls);
                let res = std::thread::scope(|sc| sc.spawn(move || run(s, base, calls, dump)).join());
                match res {
                    Ok(x) => ("in a fresh thread", x, false),
                    Err(_) => continue,
                }
            }
            10 => {
                // Part of a larger buffer with other content around it.
                let mut big: Vec<u8> = (0..64).map(|_| r.next() as u8).collect();
                let off = 16 + (g(1) % 32) as usize;
                big.truncate(off);
                big.extend_from_slice(&img0);
                big.extend((0..4096).map(|_| r.next() as u8));
                let b = Buf::new(&big, g(1) % 16);
                let s: &[u8] = unsafe { std::slice::from_raw_parts(b.ptr().add(off), img0.len()) };
                ("inside other content", run(s, s.as_ptr() as usize, &calls, dump), false)
            }
            11 => {
                // Other hives, at other places, are opened, read and dropped in between.
                let b = Buf::new(&img0, offset(&img0, g(1)));
                let mut other = img0.clone();
                for _ in 0..r.below(4) {
                    let tag = r.pick(&["flip", "fld", "sec", "garb"]);
                    apply_fault(&mut other, &past, tag, &[r.next(), r.next(), r.next(), r.next()]);
                }
                let ob = Buf::new(&other, r.below(16));
                let (r1, h1) = simdrv::open(b.sim(), true);
                drop(h1);
                let (r2, h) = simdrv::open(b.sim(), false);
                let mut res = Result { open: [r1.obs, r2.obs], calls: vec![], dump: None };
                if let Some(h) = h {
                    let mut t: Tables<SimBytes> = Tables::default();
                    let (_, mut oh) = simdrv::open(ob.sim(), false);
                    // The calls on the other hive follow what this hive's reference would do there.
                    let mut orefs = RefS::new(Img { b: &other }, true);
                    let mut dead = false;
                    for c in &calls {
                        match r.idx(3) {
                            0 => {
                                let (_, o2) = simdrv::open(ob.sim(), false);
                                if dead {
                                    drop(o2);
                                } else {
                                    drop(oh.take());
                                    oh = o2;
                                    orefs = RefS::new(Img { b: &other }, true);
                                }
                            }
                            1 => {
                                if let Some(o) = oh.as_ref().filter(|_| !dead) {
                                    let mut ot: Tables<SimBytes> = Tables::default();
                                    orefs = RefS::new(Img { b: &other }, true);
                                    for k in 0..1 + r.below(6) {
                                        let code = if k == 0 { 0 } else { r.pick(&[1, 3, 5, 6, 7, 20, 23, 24, 40, 40, 50]) };
                                        let Some(nc) = orefs.resolve(&[code, r.next(), r.next(), r.next(), r.next()]) else { continue };
                                        orefs.take(&nc);
                                        let rec = simdrv::step(o, ob.base(), &mut ot, &nc);
                                        dead = !orefs.follow(&nc, &rec).1;
                                        if dead {
                                            break;
                                        }
                                    }
                                }
                            }
                            _ => {}
                        }
                        res.calls.push(simdrv::step(&h, b.base(), &mut t, c).obs);
                    }
                    if dump {
                        res.dump = Some(simdrv::dump(&h));
                    }
                }
                ("with other hives in between", res, false)
            }
            _ => {
                // Across an address that is a multiple of 2 or 4 GiB.
                let unit = if g(0) % 14 == 12 { 1usize << 32 } else { 1 << 31 };
                let before = match g(1) % 4 {
                    0 => 1 + r.idx(4096.min(img0.len().max(1))),
                    1 => 4096 + r.idx(img0.len().saturating_sub(4096).max(1)),
                    2 => 4096,
                    _ => r.idx(img0.len() + 1),
                };
                let Some((m, at)) = Map::across(img0.len() + 16, unit, before.min(img0.len())) else { continue };
                unsafe { std::ptr::copy_nonoverlapping(img0.as_ptr(), m.p.add(at), img0.len()) };
                let s = unsafe { SimBytes::new(m.p.add(at), img0.len()) };
                ("across a 4 GiB address", run(s, m.p as usize + at, &calls, dump), false)
            }
        };
        out.n(&format!("fault:placement_{}", name.replace(' ', "_")), 1);
        out.nontrivial = true;
        out.shape(g(0) * 16 + g(1) % 16);
        if got.open != want.open {
            out.viol(G::Open, C::Depends, damaged, format!("{name}: opening gives {:?} instead of {:?}", got.open, want.open));
            return;
        }
        if !plain {
            for ((c, a), b) in calls.iter().zip(&got.calls).zip(&want.calls) {
                if a != b {
                    out.viol(c.group(), C::Depends, damaged, format!("{name}: {} gives {} instead of {}", show(c), a.short(), b.short()));
                    return;
                }
            }
            if got.calls.len() != want.calls.len() {
                out.viol(G::Nav, C::Depends, damaged, format!("{name}: a call crashes"));
                return;
            }
        }
        if dump && want.dump.is_some() && got.dump != want.dump {
            out.viol(G::Dump, C::Depends, damaged, format!("{name}: walking the tree gives something else"));
            return;
        }
    }
}
