//! The reference side of a reading session: turns numeric reader steps into calls, and judges what the
//! real library answered.
use crate::obs::{Obs, RErr, Rec};
use crate::ops::{iter_of, Call, Viol, C, G};
use crate::refreader::*;
use crate::rng::Rng;
use crate::upcase;
use crate::writer::gen_name;
use std::sync::Arc;

#[derive(Clone)]
pub enum RIter {
    Subs(Arc<SubList>, u64),
    Vals(Arc<ValList>, usize),
    Big(Arc<BigData>, usize),
    /// Expected strings; an error is the last thing it yields.
    Multi(Arc<Vec<R<String>>>, usize),
}

pub struct RefS<'a> {
    pub img: Img<'a>,
    pub damaged: bool,
    pub keys: Vec<Option<Nk>>,
    pub vals: Vec<Option<Vk>>,
    pub its: Vec<Option<RIter>>,
    pub busy: Vec<bool>,
    /// Largest use seen relative to the bound, per mille (steps, derefs).
    pub worst: (u64, u64),
    pub churn: u64,
    pub worst_call: String,
}

const OWNED_MAX: usize = 24 << 20;

/// An answer that would be true, and the handle it stands for.
struct Acc {
    list: Vec<(Obs, H)>,
}
#[derive(Clone)]
enum H {
    No,
    Key(Nk),
    Val(Vk),
    It(RIter),
}

pub fn name_obs(img: &Img, n: NameAt) -> Obs {
    Obs::Name { latin1: n.latin1, off: n.at as i64, bytes: img.b[n.at..n.at + n.len].to_vec() }
}

fn lossy(u: &[u16]) -> String {
    char::decode_utf16(u.iter().copied()).map(|r| r.unwrap_or('\u{fffd}')).collect()
}

/// What reading data as one string gives.
pub fn ref_string(data: &[u8]) -> String {
    let u: Vec<u16> = data.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
    let n = u.iter().position(|&x| x == 0).unwrap_or(u.len());
    lossy(&u[..n])
}

/// What reading data as a list of strings gives, up to the first empty one. The second part tells
/// whether the list ended before the data did.
pub fn ref_multi(data: &[u8], complete: bool) -> (Vec<String>, bool) {
    let u: Vec<u16> = data.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
    let mut out = Vec::new();
    let mut p = 0;
    while p < u.len() {
        match u[p..].iter().position(|&x| x == 0) {
            Some(0) => return (out, true),
            Some(n) => {
                out.push(lossy(&u[p..p + n]));
                p += n + 1;
            }
            None => {
                if complete {
                    out.push(lossy(&u[p..]));
                }
                return (out, false);
            }
        }
    }
    (out, false)
}

fn errs(e: &[RErr]) -> Vec<(Obs, H)> {
    e.iter().map(|x| (Obs::Err(x.clone()), H::No)).collect()
}

impl<'a> RefS<'a> {
    pub fn new(img: Img<'a>, damaged: bool) -> Self {
        RefS { img, damaged, keys: vec![], vals: vec![], its: vec![], busy: vec![], worst: (0, 0), churn: 0, worst_call: String::new() }
    }

    fn pick_key(&self, x: u64) -> Option<usize> {
        pick(&self.keys, x)
    }
    fn pick_val(&self, x: u64) -> Option<usize> {
        pick(&self.vals, x)
    }
    fn pick_it(&self, x: u64) -> Option<usize> {
        let l: Vec<usize> = (0..self.its.len()).filter(|&i| self.its[i].is_some() && !self.busy[i]).collect();
        if l.is_empty() {
            None
        } else {
            Some(l[(x % l.len() as u64) as usize])
        }
    }

    /// Names of a key's readable subkeys / values.
    fn child_units(&self, k: Nk, vals: bool, i: u64) -> Option<Vec<u16>> {
        if vals {
            let l = self.img.values(k)?.ok()?;
            if l.count == 0 {
                return None;
            }
            let v = self.img.val_at(&l, (i % l.count as u64) as usize).ok()?;
            Some(self.img.units(self.img.vk_name(v).ok()?))
        } else {
            let l = self.img.subs(k)?.ok()?;
            if l.total == 0 {
                return None;
            }
            let s = self.img.sub_at(&l, i % l.total).ok()?;
            Some(self.img.units(self.img.nk_name(s).ok()?))
        }
    }

    fn recase(u: &[u16], r: &mut Rng) -> Vec<u16> {
        u.iter()
            .map(|&c| {
                if (0xd800..0xe000).contains(&c) {
                    return c;
                }
                let e = upcase::equals_of(c);
                r.pick(&e)
            })
            .collect()
    }

    /// The search string for a lookup.
    fn arg_name(&self, k: Nk, vals: bool, variant: u64, idx: u64, seed: u64) -> String {
        Self::near(self.child_units(k, vals, idx), variant, seed)
    }

    /// A string on or next to a name.
    fn near(base: Option<Vec<u16>>, variant: u64, seed: u64) -> String {
        let mut r = Rng::new(seed ^ 0xa56);
        let u = match (variant % 12, base) {
            (0 | 1, Some(u)) => u,
            (2 | 3, Some(u)) => Self::recase(&u, &mut r),
            (4, Some(u)) => u.iter().map(|&c| upcase::up(c)).collect(),
            (5, Some(mut u)) => {
                u.push(r.pick(&[0x41, 0x5f, 0, 0xffff, 0x20, 0x30]));
                u
            }
            (6, Some(mut u)) => {
                u.pop();
                u
            }
            (7, Some(mut u)) if !u.is_empty() => {
                let i = r.idx(u.len());
                let n = u[i].wrapping_add(r.pick(&[1, 0xffff, 0x20, 0x7f, 0x100]));
                if !(0xd800..0xe000).contains(&n) && !(0xd800..0xe000).contains(&u[i]) {
                    u[i] = n;
                }
                u
            }
            (8, Some(u)) => {
                let mut v = vec![r.pick(&[0x20u16, 0x41, 0x7a])];
                v.extend(u);
                v
            }
            (9, _) => r.pick(&["", "\0", "\u{ffff}", "~", "\u{10ffff}", "A", "z"]).encode_utf16().collect(),
            (10, _) => gen_name(seed, true).units,
            (_, _) => gen_name(seed % 104, true).units,
        };
        lossy(&u)
    }

    fn arg_path(&self, k: Nk, x: u64, seed: u64) -> String {
        let mut r = Rng::new(seed ^ 0x9a7);
        let mut cur = Some(k);
        let mut p = String::new();
        let depth = 1 + x % 6;
        for _ in 0..r.pick(&[0, 0, 0, 1, 2]) {
            p.push('\\');
        }
        for d in 0..depth {
            let Some(c) = cur else { break };
            let i = r.next();
            let name = if r.chance(40) {
                self.arg_name(c, false, 5 + r.below(6), i, seed)
            } else {
                match self.child_units(c, false, i) {
                    Some(u) => {
                        let u = if r.chance(500) { Self::recase(&u, &mut r) } else { u };
                        lossy(&u)
                    }
                    None => break,
                }
            };
            if d > 0 {
                for _ in 0..r.pick(&[1, 1, 1, 2, 3]) {
                    p.push('\\');
                }
            }
            p.push_str(&name);
            let u: Vec<u16> = name.encode_utf16().collect();
            cur = self.img.lookup(c, &u).ok.first().copied();
        }
        for _ in 0..r.pick(&[0, 0, 0, 1, 2]) {
            p.push('\\');
        }
        if p.is_empty() && r.chance(500) {
            p = "\\".into();
        }
        p
    }

    /// Step arguments to a call: [code, handle, x, y, z].
    pub fn resolve(&self, a: &[u64]) -> Option<Call> {
        let g = |i: usize| a.get(i).copied().unwrap_or(0);
        let k = self.pick_key(g(1));
        let v = self.pick_val(g(1));
        let i = self.pick_it(g(1));
        use Call::*;
        Some(match g(0) {
            0 => Root,
            1 => KName(k?),
            2 => KClass(k?),
            3 => {
                let s = self.arg_name(self.keys[k?]?, false, g(2), g(3), g(4));
                KSub(k?, s)
            }
            4 => {
                let s = self.arg_path(self.keys[k?]?, g(2), g(4));
                if s.len() > 20_000 {
                    return None;
                }
                KPath(k?, s)
            }
            5 => {
                let s = self.arg_name(self.keys[k?]?, true, g(2), g(3), g(4));
                KVal(k?, s)
            }
            6 => KSubs(k?),
            7 => KVals(k?),
            8 => KClone(k?),
            9 => KEq(k?, self.pick_key(g(2))?),
            10 => KDrop(k?),
            11 => KText(k?, (g(2) % 4) as u8),
            12 => KCmpStr(k?, self.arg_name(self.keys[k?]?, false, g(2), g(3), g(4))),
            13 => KCmp(k?, self.pick_key(g(2))?),
            14 => {
                let side = |kind: u64, h: u64| -> Option<usize> {
                    Some(match kind % 3 {
                        2 => 2 + 3 * self.pick_val(h)?,
                        x => x as usize + 3 * self.pick_key(h)?,
                    })
                };
                NCmp(side(g(4), g(1))?, side(g(4) / 3, g(2))?)
            }
            15 => {
                let own = self.img.nk_name(self.keys[k?]?).ok().map(|n| self.img.units(n));
                KCmpStr(k?, Self::near(own, g(2), g(4)))
            }
            20 => VName(v?),
            21 => VType(v?),
            22 => VSize(v?),
            23 => VData(v?),
            24 => VVec(v?),
            25 => VStr(v?),
            26 => VMulti(v?),
            27 => VDword(v?),
            28 => VQword(v?),
            29 => VClone(v?),
            30 => VEq(v?, self.pick_val(g(2))?),
            31 => VDrop(v?),
            32 => VText(v?, (g(2) % 3) as u8),
            33 => {
                let own = self.img.vk_name(self.vals[v?]?).ok().map(|n| self.img.units(n));
                VCmpStr(v?, Self::near(own, g(2), g(4)))
            }
            40 => INext(i?),
            41 => INth(i?, self.arg_nth(i?, g(2), g(3))),
            42 => IHint(i?),
            43 => ILen(i?),
            44 => ICount(i?),
            45 => ILast(i?),
            46 => IClone(i?),
            47 => IDrop(i?),
            48 => ICollect(i?, 1 + (g(2) % 64) as usize),
            50 => Validate,
            51 => Major,
            52 => Minor,
            _ => return None,
        })
        .filter(|c| self.affordable(c))
    }

    fn arg_nth(&self, i: usize, x: u64, y: u64) -> usize {
        let left = self.its[i].as_ref().map_or(0, |it| self.left(it)) as u64;
        match x % 10 {
            0 => 0,
            1 => 1,
            2 | 3 => (y % (left + 2)) as usize,
            4 => left as usize,
            5 => (left.max(1) - 1) as usize,
            6 => [usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1, usize::MAX / 4 + 1, usize::MAX / 8 + 1, usize::MAX / SEG + 1]
                [(y % 6) as usize],
            7 => [usize::MAX / 4, usize::MAX / 8, usize::MAX / SEG, u32::MAX as usize, (u32::MAX / 4) as usize + 1, (1u64 << 62) as usize]
                [(y % 6) as usize],
            8 => (left + 1) as usize,
            _ => (y % 5) as usize,
        }
    }

    /// Some calls are as expensive as hostile sizes demand; those are not made.
    fn affordable(&self, c: &Call) -> bool {
        let whole = |v: &usize| {
            self.vals[*v].is_none_or(|v| match self.img.data(v) {
                Ok(DataAt::Big(d)) => d.size <= OWNED_MAX,
                Ok(DataAt::Small { len, .. }) => len <= OWNED_MAX,
                Err(_) => true,
            })
        };
        match c {
            Call::VVec(v) | Call::VStr(v) | Call::VMulti(v) => whole(v),
            Call::ICount(i) | Call::ILast(i) => match &self.its[*i] {
                Some(RIter::Subs(l, _)) => !l.ri || l.total < 100_000,
                _ => true,
            },
            Call::INth(i, n) => match &self.its[*i] {
                Some(RIter::Subs(l, _)) => !l.ri || l.total < 100_000 || *n < 1000,
                _ => true,
            },
            _ => true,
        }
    }

    fn key_acc(&self, k: Nk) -> Vec<(Obs, H)> {
        match self.img.nk_name(k) {
            Ok(n) => vec![(Obs::Key(Box::new(name_obs(&self.img, n))), H::Key(k))],
            Err(e) => e.into_iter().map(|x| (Obs::Key(Box::new(Obs::Err(x))), H::Key(k))).collect(),
        }
    }
    fn val_acc(&self, v: Vk) -> Vec<(Obs, H)> {
        match self.img.vk_name(v) {
            Ok(n) => vec![(Obs::Val(Box::new(name_obs(&self.img, n))), H::Val(v))],
            Err(e) => e.into_iter().map(|x| (Obs::Val(Box::new(Obs::Err(x))), H::Val(v))).collect(),
        }
    }

    fn rkey(&self, r: R<Nk>) -> Vec<(Obs, H)> {
        match r {
            Ok(k) => self.key_acc(k),
            Err(e) => errs(&e),
        }
    }
    fn rval(&self, r: R<Vk>) -> Vec<(Obs, H)> {
        match r {
            Ok(k) => self.val_acc(k),
            Err(e) => errs(&e),
        }
    }
    fn rname(&self, r: R<NameAt>) -> Vec<(Obs, H)> {
        match r {
            Ok(n) => vec![(name_obs(&self.img, n), H::No)],
            Err(e) => errs(&e),
        }
    }
    fn one(o: Obs) -> Vec<(Obs, H)> {
        vec![(o, H::No)]
    }

    pub fn left(&self, it: &RIter) -> usize {
        match it {
            RIter::Subs(l, p) => (l.total - (*p).min(l.total)) as usize,
            RIter::Vals(l, p) => l.count - (*p).min(l.count),
            RIter::Big(d, p) => d.segs() - (*p).min(d.segs()),
            RIter::Multi(v, p) => v.len() - (*p).min(v.len()),
        }
    }

    /// The item at the iterator's position plus `n` (None: exhausted).
    fn peek(&self, it: &RIter, n: usize) -> Option<Vec<(Obs, H)>> {
        if n >= self.left(it) {
            return None;
        }
        Some(match it {
            RIter::Subs(l, p) => self.rkey(self.img.sub_at(l, p + n as u64)),
            RIter::Vals(l, p) => self.rval(self.img.val_at(l, p + n)),
            RIter::Big(d, p) => match self.img.seg(d, p + n) {
                Ok(s) => Self::one(Obs::Bytes { off: s.start as i64, bytes: self.img.b[s.start..s.start + s.len].to_vec() }),
                Err(e) => errs(&e),
            },
            RIter::Multi(v, p) => match &v[p + n] {
                Ok(s) => Self::one(Obs::Str(s.clone())),
                Err(e) => errs(e),
            },
        })
    }

    fn skip(it: &mut RIter, n: usize, left: usize) {
        let n = n.min(left);
        match it {
            RIter::Subs(_, p) => *p += n as u64,
            RIter::Vals(_, p) => *p += n,
            RIter::Big(_, p) => *p += n,
            RIter::Multi(_, p) => *p += n,
        }
    }

    fn cmp_obs(&self, a: &[u16], b: &[u16]) -> Obs {
        use std::cmp::Ordering::*;
        let o = upcase::cmp(a, b);
        Obs::Num(match o {
            Less => 1,
            Equal => 2,
            Greater => 3,
        })
    }

    fn typed(&self, v: Vk, want: &[u32]) -> Result<u32, RErr> {
        match self.img.vk_type(v) {
            Err(e) => Err(e[0].clone()),
            Ok(t) if want.contains(&t) => Ok(t),
            Ok(t) => Err(RErr::KvType { expected: want.to_vec(), actual: t }),
        }
    }

    fn fixed(&self, v: Vk, size: usize, want: &[u32]) -> Vec<(Obs, H)> {
        // Everything that is wrong may be named: the data, its length, the type.
        let mut e: Vec<(Obs, H)> = Vec::new();
        let t = self.typed(v, want);
        match self.img.data(v) {
            Err(x) => e.extend(errs(&x)),
            Ok(DataAt::Small { at, len }) => {
                if len != size {
                    e.push((Obs::Err(RErr::DataSize { off: at, expected: size, actual: len }), H::No));
                } else if let Ok(t) = t {
                    let b = &self.img.b[at..at + len];
                    let n = match (size, t) {
                        (4, 5) => u32::from_be_bytes(b.try_into().unwrap()) as u64,
                        (4, _) => u32::from_le_bytes(b.try_into().unwrap()) as u64,
                        _ => u64::from_le_bytes(b.try_into().unwrap()),
                    };
                    return Self::one(Obs::Num(n));
                }
            }
            Ok(DataAt::Big(d)) => {
                let cell = BB + self.img.u32(v.at + 8) as usize;
                for off in [cell, cell + 4, v.at + 4, v.at + 8] {
                    e.push((Obs::Err(RErr::DataSize { off, expected: size, actual: d.size }), H::No));
                }
            }
        }
        if let Err(t) = t {
            e.push((Obs::Err(t), H::No));
        }
        e
    }

    /// All true answers to a call.
    fn accept(&self, c: &Call) -> Option<Acc> {
        use Call::*;
        let img = &self.img;
        let list: Vec<(Obs, H)> = match c {
            Root => self.rkey(img.root()),
            Validate => {
                let e = img.broken_rules();
                if e.is_empty() {
                    Self::one(Obs::Unit)
                } else {
                    errs(&e)
                }
            }
            Major => Self::one(Obs::Num(img.u32(20) as u64)),
            Minor => Self::one(Obs::Num(img.u32(24) as u64)),
            KName(k) => self.rname(img.nk_name(self.keys[*k]?)),
            KClass(k) => match img.class(self.keys[*k]?) {
                None => Self::one(Obs::None),
                Some(r) => self.rname(r),
            },
            KSub(k, s) => self.allowed_keys(img.lookup(self.keys[*k]?, &s.encode_utf16().collect::<Vec<_>>())),
            KPath(k, s) => self.allowed_keys(img.path(self.keys[*k]?, &s.encode_utf16().collect::<Vec<_>>())),
            KVal(k, s) => {
                let a = img.value(self.keys[*k]?, &s.encode_utf16().collect::<Vec<_>>());
                let mut l: Vec<(Obs, H)> = Vec::new();
                for v in a.ok {
                    l.extend(self.val_acc(v));
                }
                if a.none {
                    l.push((Obs::None, H::No));
                }
                l.extend(errs(&a.errs));
                l
            }
            KSubs(k) => match img.subs(self.keys[*k]?) {
                None => Self::one(Obs::None),
                Some(Err(e)) => errs(&e),
                Some(Ok(l)) => vec![(Obs::Iter, H::It(RIter::Subs(Arc::new(l), 0)))],
            },
            KVals(k) => match img.values(self.keys[*k]?) {
                None => Self::one(Obs::None),
                Some(Err(e)) => errs(&e),
                Some(Ok(l)) => vec![(Obs::Iter, H::It(RIter::Vals(Arc::new(l), 0)))],
            },
            KClone(k) => self.key_acc(self.keys[*k]?),
            KEq(a, b) => Self::one(Obs::Bool(self.keys[*a]? == self.keys[*b]?)),
            VEq(a, b) => Self::one(Obs::Bool(self.vals[*a]? == self.vals[*b]?)),
            KDrop(_) | VDrop(_) | IDrop(_) => Self::one(Obs::Unit),
            KText(k, 3) => match img.class(self.keys[*k]?) {
                None => Self::one(Obs::None),
                Some(Ok(n)) => Self::one(Obs::Str(lossy(&img.units(n)))),
                Some(Err(e)) => errs(&e),
            },
            KText(k, m) => self.text(img.nk_name(self.keys[*k]?), *m),
            VText(k, m) => self.text(img.vk_name(self.vals[*k]?), *m),
            KCmpStr(k, s) => match img.nk_name(self.keys[*k]?) {
                Ok(n) => Self::one(self.cmp_obs(&img.units(n), &s.encode_utf16().collect::<Vec<_>>())),
                Err(e) => errs(&e),
            },
            VCmpStr(k, s) => match img.vk_name(self.vals[*k]?) {
                Ok(n) => Self::one(self.cmp_obs(&img.units(n), &s.encode_utf16().collect::<Vec<_>>())),
                Err(e) => errs(&e),
            },
            KCmp(a, b) => match (img.nk_name(self.keys[*a]?), img.nk_name(self.keys[*b]?)) {
                (Ok(x), Ok(y)) => Self::one(self.cmp_obs(&img.units(x), &img.units(y))),
                (Err(e), _) | (_, Err(e)) => errs(&e),
            },
            NCmp(a, b) => {
                let side = |x: usize| -> Option<Option<Result<Vec<u16>, Vec<RErr>>>> {
                    let n = match x % 3 {
                        0 => Some(img.nk_name(self.keys[x / 3]?)),
                        1 => img.class(self.keys[x / 3]?),
                        _ => Some(img.vk_name(self.vals[x / 3]?)),
                    };
                    Some(n.map(|r| r.map(|n| img.units(n))))
                };
                match (side(*a)?, side(*b)?) {
                    (Some(Ok(x)), Some(Ok(y))) => Self::one(self.cmp_obs(&x, &y)),
                    (None, _) => Self::one(Obs::None),
                    (Some(Err(e)), _) => errs(&e),
                    (_, None) => Self::one(Obs::None),
                    (_, Some(Err(e))) => errs(&e),
                }
            }
            VName(v) => self.rname(img.vk_name(self.vals[*v]?)),
            VType(v) => match img.vk_type(self.vals[*v]?) {
                Ok(t) => Self::one(Obs::Num(t as u64)),
                Err(e) => errs(&e),
            },
            VSize(v) => Self::one(Obs::Num(img.vk_size(self.vals[*v]?) as u64)),
            VClone(v) => self.val_acc(self.vals[*v]?),
            VData(v) => match img.data(self.vals[*v]?) {
                Ok(DataAt::Small { at, len }) => {
                    Self::one(Obs::Data { big: false, off: at as i64, bytes: img.b[at..at + len].to_vec() })
                }
                Ok(DataAt::Big(d)) => vec![(Obs::Iter, H::It(RIter::Big(Arc::new(d), 0)))],
                Err(e) => errs(&e),
            },
            VVec(v) => match img.whole(self.vals[*v]?) {
                Ok(b) => Self::one(Obs::Owned(b)),
                Err(e) => errs(&e),
            },
            VStr(v) => {
                let v = self.vals[*v]?;
                let mut e: Vec<(Obs, H)> = Vec::new();
                if let Err(t) = self.typed(v, &[1, 2]) {
                    e.push((Obs::Err(t), H::No));
                }
                match img.prefix(v) {
                    Err(x) => e.extend(errs(&x)),
                    Ok((b, bad)) => {
                        if e.is_empty() {
                            match bad {
                                None => e.push((Obs::Str(ref_string(&b)), H::No)),
                                Some(x) => {
                                    e.extend(errs(&x));
                                    // A NUL in the readable part ends the text before the damage.
                                    if b.chunks_exact(2).any(|c| c == [0, 0]) {
                                        e.push((Obs::Str(ref_string(&b)), H::No));
                                    }
                                }
                            }
                        }
                    }
                }
                e
            }
            VMulti(v) => {
                let v = self.vals[*v]?;
                let mut e: Vec<(Obs, H)> = Vec::new();
                if let Err(t) = self.typed(v, &[7]) {
                    e.push((Obs::Err(t), H::No));
                }
                match img.prefix(v) {
                    Err(x) => e.extend(errs(&x)),
                    Ok((b, bad)) => {
                        if e.is_empty() {
                            let (strings, ended) = ref_multi(&b, bad.is_none());
                            let mut items: Vec<R<String>> = strings.into_iter().map(Ok).collect();
                            if let (Some(x), false) = (bad, ended) {
                                items.push(Err(x));
                            }
                            e.push((Obs::Iter, H::It(RIter::Multi(Arc::new(items), 0))));
                        }
                    }
                }
                e
            }
            VDword(v) => self.fixed(self.vals[*v]?, 4, &[4, 5]),
            VQword(v) => self.fixed(self.vals[*v]?, 8, &[11]),
            INext(i) => self.peek(self.its[*i].as_ref()?, 0).unwrap_or_else(|| Self::one(Obs::None)),
            INth(i, n) => self.peek(self.its[*i].as_ref()?, *n).unwrap_or_else(|| Self::one(Obs::None)),
            ICount(i) => Self::one(Obs::Num(self.left(self.its[*i].as_ref()?) as u64)),
            ILen(i) => match self.its[*i].as_ref()? {
                RIter::Subs(l, _) if l.ri => Self::one(Obs::Skip),
                RIter::Multi(..) => Self::one(Obs::Skip),
                it => Self::one(Obs::Num(self.left(it) as u64)),
            },
            ILast(i) => {
                let it = self.its[*i].as_ref()?;
                let n = self.left(it);
                if n == 0 {
                    Self::one(Obs::None)
                } else {
                    self.peek(it, n - 1).unwrap()
                }
            }
            IClone(i) => vec![(Obs::Iter, H::It(self.its[*i].clone()?))],
            IHint(_) | ICollect(..) => return None,
        };
        Some(Acc { list })
    }

    fn text(&self, n: R<NameAt>, mode: u8) -> Vec<(Obs, H)> {
        match n {
            Err(e) => errs(&e),
            Ok(n) => {
                let u = self.img.units(n);
                match mode {
                    1 => Self::one(Obs::OptStr(String::from_utf16(&u).ok())),
                    2 => Self::one(Obs::Num(crate::rng::hash_bytes(lossy(&u).as_bytes(), 3))),
                    _ => Self::one(Obs::Str(lossy(&u))),
                }
            }
        }
    }

    fn allowed_keys(&self, a: Allowed<Nk>) -> Vec<(Obs, H)> {
        let mut l: Vec<(Obs, H)> = Vec::new();
        for k in a.ok {
            l.extend(self.key_acc(k));
        }
        if a.none {
            l.push((Obs::None, H::No));
        }
        l.extend(errs(&a.errs));
        l
    }

    /// Position of a live handle among the live ones (what a step argument has to say to mean it).
    pub fn pos_key(&self, k: usize) -> u64 {
        self.keys[..k].iter().filter(|x| x.is_some()).count() as u64
    }
    pub fn pos_val(&self, v: usize) -> u64 {
        self.vals[..v].iter().filter(|x| x.is_some()).count() as u64
    }

    pub fn take(&mut self, c: &Call) {
        if let Some(i) = iter_of(c) {
            self.busy[i] = true;
        }
    }

    fn group(&self, c: &Call) -> G {
        use Call::*;
        match c {
            INext(i) => match self.its[*i] {
                Some(RIter::Multi(..)) => G::Typed,
                Some(RIter::Big(..)) => G::Data,
                _ => G::Enum,
            },
            _ => c.group(),
        }
    }

    /// Judges one executed call and updates the handle tables according to what came back.
    /// None in the second place: the session cannot go on.
    pub fn check(&mut self, c: &Call, rec: &Rec) -> (Vec<Viol>, bool) {
        use Call::*;
        let g = self.group(c);
        if let Some(i) = iter_of(c) {
            self.busy[i] = false;
        }
        let damaged = self.damaged;
        let mut out: Vec<Viol> = Vec::new();
        let mut viol = |cl: C, msg: String| out.push(Viol { g, c: cl, msg, damaged });
        let o = &rec.obs;
        match o {
            Obs::Panic(m) => {
                viol(C::Panic, format!("{} panicked: {m}", show(c)));
                return (out, false);
            }
            Obs::Steps => {
                viol(C::Endless, format!("{} did not finish within its step budget", show(c)));
                return (out, false);
            }
            Obs::Stack => {
                viol(C::Stack, format!("{} used more than {} bytes of stack", show(c), crate::seam::STACK_SOFT));
                return (out, false);
            }
            Obs::Skip if !matches!(c, ILen(_)) => return (out, true),
            _ => {}
        }
        // Heap
        let zero = match c {
            INext(i) | INth(i, _) | ILast(i) | ICount(i) => !matches!(self.its[*i], Some(RIter::Multi(..))),
            ICollect(..) => true,
            c => c.zero_copy(),
        };
        if zero && !matches!(c, ICollect(..)) && rec.use_.allocs > 0 {
            viol(C::Alloc, format!("{} made {} heap allocations", show(c), rec.use_.allocs));
        }
        if let Some(max) = self.owned_bound(c) {
            if rec.use_.peak > max as i64 {
                viol(C::Alloc, format!("{} allocated {} bytes; the data present justifies {max}", show(c), rec.use_.peak));
            }
            // Growing a buffer over and over copies what is in it.
            let w = rec.use_.churn * 1000 / (max as u64 + 65536);
            self.churn = self.churn.max(w);
            if w > 1000 {
                viol(C::Cost, format!("{} allocated {} bytes altogether; the data present justifies {max}", show(c), rec.use_.churn));
            }
        }
        // Work
        let (smax, dmax) = self.cost_bound(c);
        let w = rec.use_.steps * 1000 / smax;
        let w2 = rec.use_.derefs * 1000 / dmax;
        if w > self.worst.0 {
            self.worst.0 = w;
            self.worst_call = show(c);
        }
        self.worst.1 = self.worst.1.max(w2);
        if w > 1000 || w2 > 1000 {
            viol(
                C::Cost,
                format!("{} took {} steps and {} accesses (bounds {smax}, {dmax})", show(c), rec.use_.steps, rec.use_.derefs),
            );
        }
        // Answer
        match c {
            IHint(i) => {
                let left = self.its[*i].as_ref().map_or(0, |it| self.left(it));
                match o {
                    Obs::Hint(lo, hi) => {
                        if *lo > left || hi.is_some_and(|h| h < left) {
                            viol(C::Value, format!("{}: size_hint ({lo}, {hi:?}) but {left} items are left", show(c)));
                        }
                    }
                    _ => viol(C::Value, format!("{}: {}", show(c), o.short())),
                }
                return (out, true);
            }
            ICollect(i, max) => {
                let Obs::List(items) = o else { return (out, false) };
                let it = self.its[*i].clone();
                let Some(mut it) = it else { return (out, true) };
                for (n, x) in items.iter().enumerate() {
                    let left = self.left(&it);
                    let exp = self.peek(&it, 0).unwrap_or_else(|| Self::one(Obs::None));
                    if !exp.iter().any(|(e, _)| e == x) {
                        let cl = classify(&exp, x);
                        viol(cl, format!("{} item {n}: {} instead of {}", show(c), x.short(), show_exp(&exp)));
                        return (out, false);
                    }
                    Self::skip(&mut it, 1, left);
                }
                let _ = max;
                self.its[*i] = Some(it);
                return (out, true);
            }
            _ => {}
        }
        let Some(acc) = self.accept(c) else { return (out, true) };
        match acc.list.iter().find(|(e, _)| e == o) {
            Some((_, h)) => {
                // advance iterators
                match c {
                    INext(i) => {
                        let left = self.left(self.its[*i].as_ref().unwrap());
                        Self::skip(self.its[*i].as_mut().unwrap(), 1, left);
                    }
                    INth(i, n) => {
                        let left = self.left(self.its[*i].as_ref().unwrap());
                        Self::skip(self.its[*i].as_mut().unwrap(), n.saturating_add(1), left);
                    }
                    KDrop(k) => self.keys[*k] = None,
                    VDrop(k) => self.vals[*k] = None,
                    IDrop(k) => self.its[*k] = None,
                    _ => {}
                }
                match h.clone() {
                    H::No => {}
                    H::Key(k) => self.keys.push(Some(k)),
                    H::Val(v) => self.vals.push(Some(v)),
                    H::It(it) => {
                        self.its.push(Some(it));
                        self.busy.push(false);
                    }
                }
                (out, true)
            }
            None => {
                let cl = classify(&acc.list, o);
                viol(cl, format!("{}: {} instead of {}", show(c), o.short(), show_exp(&acc.list)));
                (out, false)
            }
        }
    }

    /// Follows the real library without judging its answers (only crashes). Handles are tracked by what
    /// came back, so the library, not the reference, decides how the session goes on.
    pub fn follow(&mut self, c: &Call, rec: &Rec) -> (Vec<Viol>, bool) {
        use Call::*;
        if let Some(i) = iter_of(c) {
            self.busy[i] = false;
        }
        let g = c.group();
        let damaged = self.damaged;
        let v = |cl: C, msg: String| (vec![Viol { g, c: cl, msg, damaged }], false);
        match &rec.obs {
            Obs::Panic(m) => return v(C::Panic, format!("{} panicked: {m}", show(c))),
            Obs::Steps => return v(C::Endless, format!("{} did not finish within its step budget", show(c))),
            Obs::Stack => return v(C::Stack, format!("{} used more than {} bytes of stack", show(c), crate::seam::STACK_SOFT)),
            Obs::Skip => return (vec![], true),
            _ => {}
        }
        match c {
            KDrop(k) => self.keys[*k] = None,
            VDrop(k) => self.vals[*k] = None,
            IDrop(k) => self.its[*k] = None,
            _ => {}
        }
        let cell_end = |at: usize| {
            let size = self.img.u32(at - 4).wrapping_neg() as usize;
            (at - 4).saturating_add(size).min(self.img.b.len())
        };
        let place = |n: &Obs, header: usize| match n {
            Obs::Name { off, bytes, .. } if *off >= (BB + 4 + header) as i64 && *off as usize + bytes.len() <= self.img.b.len() => {
                let at = *off as usize - header;
                (at, cell_end(at).max(at + header))
            }
            _ => (0, 100),
        };
        match &rec.obs {
            Obs::Key(n) => {
                let (at, end) = place(n, 76);
                self.keys.push(Some(Nk { at, end }));
            }
            Obs::Val(n) => {
                let (at, end) = place(n, 20);
                self.vals.push(Some(Vk { at, end }));
            }
            Obs::Iter => {
                self.its.push(Some(RIter::Vals(Arc::new(ValList { start: 0, count: 7 }), 0)));
                self.busy.push(false);
            }
            _ => {}
        }
        (vec![], true)
    }

    /// Most bytes an owned result may take.
    fn owned_bound(&self, c: &Call) -> Option<usize> {
        let data = |v: Vk| match self.img.prefix(v) {
            Ok((b, _)) => b.len(),
            Err(_) => 0,
        };
        let n = match c {
            Call::VVec(v) | Call::VStr(v) => data(self.vals[*v]?),
            Call::KText(k, _) => {
                let k = self.keys[*k]?;
                let a = self.img.nk_name(k).map_or(0, |n| n.len);
                a.max(self.img.class(k).and_then(|c| c.ok()).map_or(0, |n| n.len))
            }
            Call::VText(v, _) => self.img.vk_name(self.vals[*v]?).map_or(0, |n| n.len),
            Call::INext(i) | Call::INth(i, _) | Call::ILast(i) | Call::ICount(i) => match &self.its[*i] {
                Some(RIter::Multi(v, _)) => {
                    // strings of the list, and what may lie before the damage after them
                    v.iter().map(|s| s.as_ref().map_or(SEG * 8, |s| s.len())).sum()
                }
                _ => return None,
            },
            _ => return None,
        };
        Some(n * 12 + 4096)
    }

    /// Bounds (basic blocks + accesses, accesses) with ample room for other implementations.
    fn cost_bound(&self, c: &Call) -> (u64, u64) {
        let lg = |n: u64| 64 - (n + 1).leading_zeros() as u64;
        let slen = |s: &String| s.len() as u64;
        match c {
            Call::KSub(k, s) => {
                let n = self.keys[*k].and_then(|k| self.img.subs(k)).and_then(|l| l.ok()).map_or(0, |l| l.total);
                let p = 3 * lg(n) + 4;
                (p * (600 + 60 * slen(s)) + 2000, p * 60 + 100)
            }
            Call::KPath(_, s) => {
                let comps = s.split('\\').filter(|c| !c.is_empty()).count() as u64;
                let p = (comps + 1) * (3 * 17 + 4);
                (p * (600 + 60 * slen(s)) + 2000 + 60 * slen(s), p * 60 + 100)
            }
            Call::KVal(k, s) => {
                let n = self.keys[*k].and_then(|k| self.img.values(k)).and_then(|l| l.ok()).map_or(0, |l| l.count) as u64;
                ((n + 2) * (900 + 60 * slen(s)) + 2000, (n + 2) * 80 + 100)
            }
            Call::Validate => (40_000, 600),
            Call::KText(..) | Call::VText(..) | Call::KCmp(..) | Call::NCmp(..) | Call::KCmpStr(..) | Call::VCmpStr(..) => {
                let key = |k: usize| self.keys[k].map_or(0, |k| self.img.nk_name(k).map_or(0, |n| n.len));
                let class = |k: usize| self.keys[k].and_then(|k| self.img.class(k)).map_or(0, |c| c.map_or(0, |n| n.len));
                let val = |v: usize| self.vals[v].map_or(0, |v| self.img.vk_name(v).map_or(0, |n| n.len));
                let side = |x: usize| match x % 3 {
                    0 => key(x / 3),
                    1 => class(x / 3),
                    _ => val(x / 3),
                };
                let n = match c {
                    Call::KText(k, _) => key(*k).max(class(*k)),
                    Call::VText(v, _) => val(*v),
                    Call::KCmp(a, b) => key(*a) + key(*b),
                    Call::NCmp(a, b) => side(*a) + side(*b),
                    Call::KCmpStr(k, s) => key(*k) + s.len(),
                    Call::VCmpStr(v, s) => val(*v) + s.len(),
                    _ => 0,
                } as u64;
                (n * NAME_STEPS + 30_000, 400)
            }
            Call::VVec(v) | Call::VStr(v) => {
                let n = self.vals[*v].map_or(0, |v| self.img.prefix(v).map_or(0, |b| b.0.len())) as u64;
                (n * 60 + 20_000, n / 100 + 1000)
            }
            Call::INext(i) | Call::INth(i, _) | Call::ICount(i) | Call::ILast(i) | Call::ICollect(i, _) => {
                let n = match c {
                    Call::INext(_) => 1,
                    Call::ICollect(_, m) => *m as u64,
                    _ => self.its[*i].as_ref().map_or(0, |it| self.left(it)) as u64 + 2,
                };
                let one = matches!(c, Call::INext(_));
                match self.its[*i].as_ref() {
                    Some(RIter::Multi(v, p)) => {
                        let b: u64 = v[(*p).min(v.len())..]
                            .iter()
                            .take(if one { 1 } else { usize::MAX })
                            .map(|s| s.as_ref().map_or(SEG * 65, |s| s.len()) as u64 + 1)
                            .sum();
                        (b * 200 + 20_000 + SEG as u64 * 100, b / 20 + 2000)
                    }
                    _ => (n * 4000 + 4000, n * 160 + 200),
                }
            }
            Call::IDrop(_) | Call::IClone(_) => (20_000, 400),
            _ => (20_000, 400),
        }
    }
}

/// Steps per byte of the names, for a dozen comparisons or a conversion.
const NAME_STEPS: u64 = 600;

fn classify(exp: &[(Obs, H)], got: &Obs) -> C {
    let any_err = exp.iter().any(|(e, _)| e.is_err());
    let any_ok = exp.iter().any(|(e, _)| !e.is_err());
    if got.is_crash() {
        C::Panic
    } else if got.is_err() {
        if any_err {
            C::WrongErr
        } else {
            C::Spurious
        }
    } else if any_ok {
        C::Value
    } else {
        C::Missed
    }
}

fn show_exp(e: &[(Obs, H)]) -> String {
    let v: Vec<String> = e.iter().take(4).map(|(o, _)| o.short()).collect();
    v.join(" or ")
}

pub fn show(c: &Call) -> String {
    let s = format!("{c:?}");
    if s.len() > 160 {
        s.chars().take(160).collect()
    } else {
        s
    }
}

fn pick<T>(l: &[Option<T>], x: u64) -> Option<usize> {
    let live: Vec<usize> = (0..l.len()).filter(|&i| l[i].is_some()).collect();
    if live.is_empty() {
        None
    } else {
        Some(live[(x % live.len() as u64) as usize])
    }
}
