//! Whole cases - open, calls, walk, clear - with plain byte slices, for comparing one machine or build with another.
#[cfg(not(feature = "host"))]
#[allow(unused_imports)]
use simcore::prelude::*;
use crate::{clear, dump, open, step, Tables};
use simcore::model::Line;
use simcore::obs::{Obs, RErr};
use simcore::ops::{put_bytes, Call, Input};
use simcore::rng::{hash_bytes, mix};

pub struct Case {
    pub align: usize,
    pub img: Vec<u8>,
    pub calls: Vec<Call>,
    /// Walk and clear, too.
    pub whole: bool,
}

impl Case {
    pub fn encode(&self, o: &mut Vec<u8>) {
        o.push(self.align as u8);
        o.push(self.whole as u8);
        put_bytes(o, &self.img);
        o.extend_from_slice(&(self.calls.len() as u32).to_le_bytes());
        for c in &self.calls {
            c.encode(o);
        }
    }
    pub fn decode(i: &mut Input) -> Option<Case> {
        let align = i.bytes(1)?[0] as usize;
        let whole = i.bytes(1)?[0] == 1;
        let n = i.num()?;
        let img = i.bytes(n)?.to_vec();
        let n = i.num()?;
        let calls = (0..n).map(|_| Call::decode(i)).collect::<Option<Vec<_>>>()?;
        Some(Case { align, img, calls, whole })
    }
}

/// One thing seen: what was done, its hash, and (if wanted) what it was.
pub struct Seen {
    pub what: String,
    pub hash: u64,
    pub text: String,
    pub crash: bool,
}

fn cut(n: usize) -> u64 {
    n.min(u32::MAX as usize) as u64
}

struct H(u64);
impl H {
    fn n(&mut self, x: u64) -> &mut H {
        self.0 = mix(self.0 ^ x).wrapping_add(1);
        self
    }
    fn b(&mut self, b: &[u8]) -> &mut H {
        self.0 = hash_bytes(b, self.0 ^ b.len() as u64);
        self
    }
    fn e(&mut self, e: &RErr) {
        match e {
            RErr::Checksum { expected, actual } => self.n(1).n(*expected as u64).n(*actual as u64),
            RErr::DataSize { off, expected, actual } => self.n(2).n(cut(*off)).n(cut(*expected)).n(cut(*actual)),
            RErr::Sig4 { off, expected, actual } => self.n(3).n(cut(*off)).b(expected).b(actual),
            RErr::HeaderSize { off, expected, actual } => self.n(4).n(cut(*off)).n(cut(*expected)).n(cut(*actual)),
            RErr::KvType { expected, actual } => {
                for x in expected {
                    self.n(*x as u64);
                }
                self.n(5).n(*actual as u64)
            }
            RErr::SizeField { off, expected, actual } => self.n(6).n(cut(*off)).n(cut(*expected)).n(cut(*actual)),
            RErr::SizeAlign { off, size, align } => self.n(7).n(cut(*off)).n(cut(*size)).n(cut(*align)),
            RErr::Sig2 { off, expected, actual } => self.n(8).n(cut(*off)).b(expected).b(actual),
            RErr::SeqMismatch { primary, secondary } => self.n(9).n(*primary as u64).n(*secondary as u64),
            RErr::Unalloc { off, size } => self.n(10).n(cut(*off)).n(*size as u32 as u64),
            RErr::Cluster { expected, actual } => self.n(11).n(*expected as u64).n(*actual as u64),
            RErr::FileFormat { expected, actual } => self.n(12).n(*expected as u64).n(*actual as u64),
            RErr::FileType { expected, actual } => self.n(13).n(*expected as u64).n(*actual as u64),
            RErr::UnsuppType { off, actual } => self.n(14).n(cut(*off)).n(*actual as u64),
            RErr::Version { major, minor } => self.n(15).n(*major as u64).n(*minor as u64),
            RErr::Other(t) => self.n(16).b(t.as_bytes()),
        };
    }
    /// What every machine must see alike: sizes and offsets as far as 32 bits go. Cheap, for interpreted machines.
    fn o(&mut self, o: &Obs) -> &mut H {
        let place = |off: &i64, b: &[u8]| if b.is_empty() { 0 } else { *off as u32 as u64 };
        match o {
            Obs::Skip => self.n(20),
            Obs::None => self.n(21),
            Obs::Unit => self.n(22),
            Obs::Err(e) => {
                self.e(e);
                self.n(23)
            }
            Obs::Panic(_) => self.n(24),
            Obs::Steps => self.n(25),
            Obs::Stack => self.n(26),
            Obs::Bool(b) => self.n(27).n(*b as u64),
            Obs::Num(n) => self.n(28).n(*n),
            Obs::Name { latin1, off, bytes } => self.n(29 + *latin1 as u64).n(place(off, bytes)).b(bytes),
            Obs::Key(k) => self.n(31).o(k),
            Obs::Val(k) => self.n(32).o(k),
            Obs::Bytes { off, bytes } => self.n(33).n(place(off, bytes)).b(bytes),
            Obs::Data { big, off, bytes } => self.n(34 + *big as u64).n(place(off, bytes)).b(bytes),
            Obs::Owned(b) => self.n(36).b(b),
            Obs::Str(t) => self.n(37).b(t.as_bytes()),
            Obs::OptStr(None) => self.n(38),
            Obs::OptStr(Some(t)) => self.n(39).b(t.as_bytes()),
            Obs::Hint(a, b) => self.n(40).n(cut(*a)).n(b.map_or(u64::MAX, cut)),
            Obs::Iter => self.n(41),
            Obs::List(l) => {
                for x in l {
                    self.o(x);
                }
                self.n(42).n(l.len() as u64)
            }
        }
    }
}

fn line_hash(l: &Line) -> u64 {
    match l {
        Line::Key { depth, latin1, name, class } => {
            let h = hash_bytes(name, mix(*depth as u64 * 2 + *latin1 as u64 + 41));
            class.as_ref().map_or(h, |c| hash_bytes(c, h))
        }
        Line::Val { depth, latin1, name, ty, size, data } => {
            let h = hash_bytes(name, mix(*depth as u64 * 2 + *latin1 as u64 + 43));
            hash_bytes(data, mix(h ^ ((*ty as u64) << 32 | *size as u64)))
        }
    }
}

/// Runs a case; `sink` is told everything seen, in order. Stops after a crash.
pub fn run(case: &Case, verbose: bool, sink: &mut dyn FnMut(Seen)) {
    let mut see = |what: &dyn Fn() -> String, o: &Obs| {
        sink(Seen {
            what: if verbose { what() } else { String::new() },
            hash: H(7).o(o).0,
            text: if verbose { o.short() } else { String::new() },
            crash: o.is_crash(),
        });
        o.is_crash()
    };
    // The image at the wanted alignment.
    let mut mem = vec![0u64; case.img.len() / 8 + 4];
    let shift = (16 - mem.as_ptr() as usize % 16) % 16 + case.align % 16;
    let bytes: &mut [u8] = unsafe { core::slice::from_raw_parts_mut(mem.as_mut_ptr() as *mut u8, mem.len() * 8) };
    bytes[shift..shift + case.img.len()].copy_from_slice(&case.img);
    let img: &mut [u8] = &mut bytes[shift..shift + case.img.len()];
    {
        let b: &[u8] = img;
        let base = b.as_ptr() as usize;
        let (r, h) = open(b, true);
        drop(h);
        if see(&|| "Hive::new".into(), &r.obs) {
            return;
        }
        let (r, h) = open(b, false);
        if see(&|| "Hive::without_validation".into(), &r.obs) {
            return;
        }
        let Some(h) = h else { return };
        let mut t = Tables::default();
        for c in &case.calls {
            let r = step(&h, base, &mut t, c);
            if see(&|| format!("{c:?}"), &r.obs) {
                return;
            }
        }
        if !case.whole {
            return;
        }
        match dump(&h) {
            Ok(l) => {
                for x in &l {
                    let h = line_hash(x);
                    see(&|| format!("walk: {x:?}"), &Obs::Num(h));
                }
            }
            Err((w, o)) => {
                if see(&|| format!("walk: {w}"), &o) {
                    return;
                }
            }
        }
    }
    let r = clear(&mut *img, 20_000_000_000);
    if !see(&|| "clear_volatile_subkeys".into(), &r.obs) {
        // Which bytes changed, and to what (comparing blocks is cheap on interpreted machines).
        let mut h = 3;
        for (i, (a, b)) in case.img.chunks(128).zip(img.chunks(128)).enumerate() {
            if *a != *b {
                h = hash_bytes(b, mix(h ^ i as u64));
            }
        }
        see(&|| "hive after clear_volatile_subkeys".into(), &Obs::Num(h));
    }
}
