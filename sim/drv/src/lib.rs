//! Drives the real nt-hive: performs resolved calls and turns what comes back into observations.
//! This crate instantiates nt-hive's generic code, so it is compiled with basic-block callbacks too.
#![cfg_attr(not(feature = "host"), no_std)]
extern crate alloc;
use nt_hive::*;
#[cfg(not(feature = "host"))]
#[allow(unused_imports)]
use simcore::prelude::*;
use simcore::model::Line;
use simcore::obs::{Obs, RErr, Rec};
use simcore::ops::{iter_of, Call};
use simcore::seam::{probe, probe_budget, Fail, Usage};
use alloc::sync::Arc;
use core::fmt::Write;
use zerocopy::{SplitByteSlice, SplitByteSliceMut};

pub mod batch;

pub use nt_hive::Hive;

#[allow(unreachable_patterns)]
/// Whether the error's text tells all the numbers it holds, in decimal or hexadecimal.
#[cfg(feature = "host")]
fn tells(e: &NtHiveError, r: &RErr) -> bool {
    let t = e.to_string();
    let has = |n: i128| {
        let (d, x) = (n.to_string(), format!("{n:x}"));
        t.contains(&d) || (n >= 0 && t.to_ascii_lowercase().contains(&x))
    };
    match r {
        RErr::Checksum { expected: a, actual: b }
        | RErr::Cluster { expected: a, actual: b }
        | RErr::FileFormat { expected: a, actual: b }
        | RErr::FileType { expected: a, actual: b }
        | RErr::SeqMismatch { primary: a, secondary: b }
        | RErr::Version { major: a, minor: b } => has(*a as i128) && has(*b as i128),
        RErr::DataSize { off, expected, actual }
        | RErr::HeaderSize { off, expected, actual }
        | RErr::SizeField { off, expected, actual } => has(*off as i128) && has(*expected as i128) && has(*actual as i128),
        RErr::SizeAlign { off, size, align } => has(*off as i128) && has(*size as i128) && has(*align as i128),
        RErr::Sig4 { off, .. } | RErr::Sig2 { off, .. } => has(*off as i128),
        RErr::Unalloc { off, size } => has(*off as i128) && has(*size as i128),
        RErr::UnsuppType { off, actual } => has(*off as i128) && has(*actual as i128),
        RErr::KvType { .. } | RErr::Other(_) => !t.is_empty(),
    }
}

/// The error with everything it holds.
pub fn conv(e: &NtHiveError) -> RErr {
    let r = fields(e);
    #[cfg(feature = "host")]
    if !tells(e, &r) {
        return RErr::Other(format!("{e:?} says: {e}"));
    }
    r
}

fn fields(e: &NtHiveError) -> RErr {
    use NtHiveError as N;
    match e.clone() {
        N::InvalidChecksum { expected, actual } => RErr::Checksum { expected, actual },
        N::InvalidDataSize { offset, expected, actual } => RErr::DataSize { off: offset, expected, actual },
        N::InvalidFourByteSignature { offset, expected, actual } => {
            RErr::Sig4 { off: offset, expected: expected.to_vec(), actual }
        }
        N::InvalidHeaderSize { offset, expected, actual } => RErr::HeaderSize { off: offset, expected, actual },
        N::InvalidKeyValueDataType { expected, actual } => {
            RErr::KvType { expected: expected.iter().map(|t| *t as u32).collect(), actual: actual as u32 }
        }
        N::InvalidSizeField { offset, expected, actual } => RErr::SizeField { off: offset, expected, actual },
        N::InvalidSizeFieldAlignment { offset, size, expected_alignment } => {
            RErr::SizeAlign { off: offset, size, align: expected_alignment }
        }
        N::InvalidTwoByteSignature { offset, expected, actual } => {
            RErr::Sig2 { off: offset, expected: expected.to_vec(), actual }
        }
        N::SequenceNumberMismatch { primary, secondary } => RErr::SeqMismatch { primary, secondary },
        N::UnallocatedCell { offset, size } => RErr::Unalloc { off: offset, size },
        N::UnsupportedClusteringFactor { expected, actual } => RErr::Cluster { expected, actual },
        N::UnsupportedFileFormat { expected, actual } => RErr::FileFormat { expected, actual },
        N::UnsupportedFileType { expected, actual } => RErr::FileType { expected, actual },
        N::UnsupportedKeyValueDataType { offset, actual } => RErr::UnsuppType { off: offset, actual },
        N::UnsupportedVersion { major, minor } => RErr::Version { major, minor },
        other => RErr::Other(format!("{other:?}")),
    }
}

pub fn fail_obs(f: Fail) -> Obs {
    match f {
        Fail::Panic(m) => Obs::Panic(m),
        Fail::Steps => Obs::Steps,
        Fail::Stack => Obs::Stack,
    }
}

pub enum It<'h, B: SplitByteSlice + 'h> {
    Subs(SubKeyNodes<'h, B>),
    Vals(KeyValues<'h, B>),
    Big(BigDataSlices<'h, B>),
    #[cfg(feature = "alloc")]
    Multi(RegMultiSZStrings<'h, B>),
}

impl<'h, B: SplitByteSlice + Clone + 'h> It<'h, B> {
    fn dup(&self) -> Self {
        match self {
            It::Subs(i) => It::Subs(i.clone()),
            It::Vals(i) => It::Vals(i.clone()),
            It::Big(i) => It::Big(i.clone()),
            #[cfg(feature = "alloc")]
            It::Multi(i) => It::Multi(i.clone()),
        }
    }
}

pub enum New<'h, B: SplitByteSlice + 'h> {
    No,
    Key(KeyNode<'h, B>),
    Val(KeyValue<'h, B>),
    It(It<'h, B>),
}

/// The handles a session holds.
pub struct Tables<'h, B: SplitByteSlice + 'h> {
    pub keys: Vec<Option<Arc<KeyNode<'h, B>>>>,
    pub vals: Vec<Option<Arc<KeyValue<'h, B>>>>,
    pub its: Vec<Option<It<'h, B>>>,
}

pub struct Fetched<'h, B: SplitByteSlice + 'h> {
    k: Option<Arc<KeyNode<'h, B>>>,
    k2: Option<Arc<KeyNode<'h, B>>>,
    v: Option<Arc<KeyValue<'h, B>>>,
    v2: Option<Arc<KeyValue<'h, B>>>,
    it: Option<It<'h, B>>,
}

impl<'h, B: SplitByteSlice + 'h> Default for Tables<'h, B> {
    fn default() -> Self {
        Tables { keys: vec![], vals: vec![], its: vec![] }
    }
}

impl<'h, B: SplitByteSlice + 'h> Tables<'h, B> {
    pub fn fetch(&mut self, c: &Call) -> Option<Fetched<'h, B>> {
        use Call::*;
        let mut f = Fetched { k: None, k2: None, v: None, v2: None, it: None };
        let key = |i: &usize| self.keys.get(*i).cloned().flatten();
        let val = |i: &usize| self.vals.get(*i).cloned().flatten();
        match c {
            Root | Validate | Major | Minor => {}
            KName(k) | KClass(k) | KSub(k, _) | KPath(k, _) | KVal(k, _) | KSubs(k) | KVals(k) | KClone(k) | KText(k, _)
            | KCmpStr(k, _) | KDrop(k) => {
                f.k = Some(key(k)?);
                if let KDrop(k) = c {
                    self.keys[*k] = None;
                }
            }
            KEq(a, b) | KCmp(a, b) => {
                f.k = Some(key(a)?);
                f.k2 = Some(key(b)?);
            }
            VName(v) | VType(v) | VSize(v) | VData(v) | VVec(v) | VStr(v) | VMulti(v) | VDword(v) | VQword(v) | VClone(v)
            | VText(v, _) | VCmpStr(v, _) | VDrop(v) => {
                f.v = Some(val(v)?);
                if let VDrop(v) = c {
                    self.vals[*v] = None;
                }
            }
            NCmp(a, b) => {
                match a % 3 {
                    2 => f.v = Some(val(&(a / 3))?),
                    _ => f.k = Some(key(&(a / 3))?),
                }
                match b % 3 {
                    2 => f.v2 = Some(val(&(b / 3))?),
                    _ => f.k2 = Some(key(&(b / 3))?),
                }
            }
            VEq(a, b) => {
                f.v = Some(val(a)?);
                f.v2 = Some(val(b)?);
            }
            INext(i) | INth(i, _) | IHint(i) | ILen(i) | ICount(i) | ILast(i) | IClone(i) | IDrop(i) | ICollect(i, _) => {
                f.it = Some(self.its.get_mut(*i)?.take()?);
            }
        }
        Some(f)
    }

    pub fn commit(&mut self, c: &Call, f: Fetched<'h, B>, n: New<'h, B>) {
        if let (Some(i), Some(it)) = (iter_of(c), f.it) {
            if !matches!(c, Call::IDrop(_)) {
                self.its[i] = Some(it);
            }
        }
        match n {
            New::No => {}
            New::Key(k) => self.keys.push(Some(Arc::new(k))),
            New::Val(v) => self.vals.push(Some(Arc::new(v))),
            New::It(i) => self.its.push(Some(i)),
        }
    }
}

fn name_obs(n: &NtHiveNameString, base: usize) -> Obs {
    let (latin1, b) = match n {
        NtHiveNameString::Latin1(b) => (true, *b),
        NtHiveNameString::Utf16LE(b) => (false, *b),
    };
    Obs::Name { latin1, off: (b.as_ptr() as usize).wrapping_sub(base) as i64, bytes: b.to_vec() }
}

fn rname(r: Result<NtHiveNameString>, base: usize) -> Obs {
    match r {
        Ok(n) => name_obs(&n, base),
        Err(e) => Obs::Err(conv(&e)),
    }
}

fn key_obs<B: SplitByteSlice>(k: &KeyNode<B>, base: usize) -> Obs {
    let o = match probe(|| k.name()) {
        (Ok(r), _) => rname(r, base),
        (Err(f), _) => return fail_obs(f),
    };
    Obs::Key(Box::new(o))
}

fn val_obs<B: SplitByteSlice>(k: &KeyValue<B>, base: usize) -> Obs {
    let o = match probe(|| k.name()) {
        (Ok(r), _) => rname(r, base),
        (Err(f), _) => return fail_obs(f),
    };
    Obs::Val(Box::new(o))
}

fn bytes_obs(b: &[u8], base: usize) -> Obs {
    Obs::Bytes { off: (b.as_ptr() as usize).wrapping_sub(base) as i64, bytes: b.to_vec() }
}

type Out<'h, B> = (Obs, New<'h, B>);

fn key_out<'h, B: SplitByteSlice>(r: Result<KeyNode<'h, B>>, base: usize) -> Out<'h, B> {
    match r {
        Ok(k) => {
            let o = key_obs(&k, base);
            if o.is_crash() {
                (o, New::No)
            } else {
                (o, New::Key(k))
            }
        }
        Err(e) => (Obs::Err(conv(&e)), New::No),
    }
}

fn val_out<'h, B: SplitByteSlice>(r: Result<KeyValue<'h, B>>, base: usize) -> Out<'h, B> {
    match r {
        Ok(k) => {
            let o = val_obs(&k, base);
            if o.is_crash() {
                (o, New::No)
            } else {
                (o, New::Val(k))
            }
        }
        Err(e) => (Obs::Err(conv(&e)), New::No),
    }
}

fn slice_out<'h, B: SplitByteSlice>(r: Result<&'h [u8]>, base: usize) -> Out<'h, B> {
    match r {
        Ok(b) => (bytes_obs(b, base), New::No),
        Err(e) => (Obs::Err(conv(&e)), New::No),
    }
}

#[cfg(feature = "alloc")]
fn str_out<'h, B: SplitByteSlice>(r: Result<String>) -> Out<'h, B> {
    match r {
        Ok(s) => (Obs::Str(s), New::No),
        Err(e) => (Obs::Err(conv(&e)), New::No),
    }
}

fn opt<'h, B: SplitByteSlice, T>(r: Option<T>, f: impl FnOnce(T) -> Out<'h, B>) -> Out<'h, B> {
    match r {
        None => (Obs::None, New::No),
        Some(x) => f(x),
    }
}

fn plain<'h, B: SplitByteSlice>(o: Obs) -> Out<'h, B> {
    (o, New::No)
}

/// Sink that hashes what is written to it (no heap).
struct Sink(u64);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for &b in s.as_bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Ok(())
    }
}

/// What the operators <, <=, >, >= say.
fn ops<X: PartialOrd<Y> + ?Sized, Y: ?Sized>(x: &X, y: &Y) -> [bool; 4] {
    [x < y, x <= y, x > y, x >= y]
}

fn told(o: core::cmp::Ordering) -> [bool; 4] {
    [o.is_lt(), o.is_le(), o.is_gt(), o.is_ge()]
}

/// All comparison operators must tell the same story. 1 less, 2 equal, 3 greater, 100+ inconsistent.
fn cmp_str(n: &NtHiveNameString, s: &str) -> u64 {
    use core::cmp::Ordering::*;
    let a = n.partial_cmp(s);
    let b = s.partial_cmp(n).map(|o| o.reverse());
    let c = n.partial_cmp(&s);
    let d = (&s).partial_cmp(n).map(|o| o.reverse());
    if a != b || a != c || a != d {
        return 100;
    }
    let eq = (*n == *s, *s == *n, *n == s, s == *n);
    if eq != (eq.0, eq.0, eq.0, eq.0) || eq.0 != (a == Some(Equal)) {
        return 101;
    }
    let w = told(a.unwrap_or(Equal));
    let rw = told(a.unwrap_or(Equal).reverse());
    if ops(n, s) != w || ops(s, n) != rw || ops(n, &s) != w || ops(&s, n) != rw {
        return 103;
    }
    match a {
        Some(Less) => 1,
        Some(Equal) => 2,
        Some(Greater) => 3,
        None => 102,
    }
}

fn cmp_names(x: &NtHiveNameString, y: &NtHiveNameString) -> u64 {
    use core::cmp::Ordering::*;
    let a = x.cmp(y);
    if x.partial_cmp(y) != Some(a) || y.cmp(x) != a.reverse() || (x == y) != (a == Equal) || (y != x) != (a != Equal) {
        return 100;
    }
    if ops(x, y) != told(a) || ops(y, x) != told(a.reverse()) || x.cmp(x) != Equal || y != y {
        return 101;
    }
    match a {
        Less => 1,
        Equal => 2,
        Greater => 3,
    }
}

fn done<'h, B: SplitByteSlice, T>(p: (Result<T, Fail>, Usage), f: impl FnOnce(T) -> Out<'h, B>) -> (Rec, New<'h, B>) {
    match p {
        (Ok(v), u) => {
            let (obs, n) = f(v);
            (Rec { obs, use_: u }, n)
        }
        (Err(x), u) => (Rec { obs: fail_obs(x), use_: u }, New::No),
    }
}

/// Performs one call. Only the library call itself runs under the simulator's eyes.
fn perform_in<'h, B>(hive: &'h Hive<B>, base: usize, c: &Call, f: &mut Fetched<'h, B>) -> (Rec, New<'h, B>)
where
    B: SplitByteSlice + Clone + 'h,
{
    use Call::*;
    let err = |e: NtHiveError| -> Out<'h, B> { (Obs::Err(conv(&e)), New::No) };
    match c {
        Root => done(probe(|| hive.root_key_node()), |r| key_out(r, base)),
        Validate => done(probe(|| hive.validate()), |r| match r {
            Ok(()) => plain(Obs::Unit),
            Err(e) => err(e),
        }),
        Major => done(probe(|| hive.major_version()), |r| plain(Obs::Num(r as u64))),
        Minor => done(probe(|| hive.minor_version()), |r| plain(Obs::Num(r as u64))),
        KDrop(_) | VDrop(_) | IDrop(_) => {
            let x = core::mem::replace(f, Fetched { k: None, k2: None, v: None, v2: None, it: None });
            done(probe(move || drop(x)), |()| plain(Obs::Unit))
        }
        KName(_) => {
            let k = f.k.as_ref().unwrap();
            done(probe(|| k.name()), |r| plain(rname(r, base)))
        }
        KClass(_) => {
            let k = f.k.as_ref().unwrap();
            done(probe(|| k.class_name()), |r| opt(r, |r| plain(rname(r, base))))
        }
        KSub(_, s) => {
            let k = f.k.as_ref().unwrap();
            done(probe(|| k.subkey(s)), |r| opt(r, |r| key_out(r, base)))
        }
        KPath(_, s) => {
            let k = f.k.as_ref().unwrap();
            done(probe(|| k.subpath(s)), |r| opt(r, |r| key_out(r, base)))
        }
        KVal(_, s) => {
            let k = f.k.as_ref().unwrap();
            done(probe(|| k.value(s)), |r| opt(r, |r| val_out(r, base)))
        }
        KSubs(_) => {
            let k = f.k.as_ref().unwrap();
            done(probe(|| k.subkeys()), |r| {
                opt(r, |r| match r {
                    Ok(i) => (Obs::Iter, New::It(It::Subs(i))),
                    Err(e) => err(e),
                })
            })
        }
        KVals(_) => {
            let k = f.k.as_ref().unwrap();
            done(probe(|| k.values()), |r| {
                opt(r, |r| match r {
                    Ok(i) => (Obs::Iter, New::It(It::Vals(i))),
                    Err(e) => err(e),
                })
            })
        }
        KClone(_) => {
            let k = f.k.as_ref().unwrap();
            done(probe(|| (**k).clone()), |r| key_out(Ok(r), base))
        }
        KEq(..) => {
            let (k, k2) = (f.k.as_ref().unwrap(), f.k2.as_ref().unwrap());
            done(probe(|| **k == **k2), |r| plain(Obs::Bool(r)))
        }
        KText(_, m) => {
            let k = f.k.as_ref().unwrap();
            #[cfg(feature = "alloc")]
            if *m == 3 {
                return done(probe(|| k.class_name().map(|r| r.map(|n| n.to_string_lossy()))), |r| opt(r, str_out));
            }
            text(k.name(), *m)
        }
        KCmpStr(_, s) => {
            let k = f.k.as_ref().unwrap();
            done(probe(|| k.name().map(|n| cmp_str(&n, s))), |r| match r {
                Ok(n) => plain(Obs::Num(n)),
                Err(e) => err(e),
            })
        }
        KCmp(..) => {
            let (k, k2) = (f.k.as_ref().unwrap(), f.k2.as_ref().unwrap());
            done(
                probe(|| {
                    let a = k.name()?;
                    let b = k2.name()?;
                    Ok(cmp_names(&a, &b))
                }),
                |r| match r {
                    Ok(n) => plain(Obs::Num(n)),
                    Err(e) => err(e),
                },
            )
        }
        NCmp(..) => {
            fn side<'h, 'a, B: SplitByteSlice>(k: &'a Option<Arc<KeyNode<'h, B>>>, v: &'a Option<Arc<KeyValue<'h, B>>>, kind: usize) -> Option<Result<NtHiveNameString<'a>>> {
                match kind % 3 {
                    0 => k.as_ref().map(|k| k.name()),
                    1 => k.as_ref().and_then(|k| k.class_name()),
                    _ => v.as_ref().map(|v| v.name()),
                }
            }
            let Call::NCmp(a, b) = c else { unreachable!() };
            done(
                probe(|| {
                    let Some(x) = side(&f.k, &f.v, *a) else { return Ok(None) };
                    let x = x?;
                    let Some(y) = side(&f.k2, &f.v2, *b) else { return Ok(None) };
                    Ok(Some(cmp_names(&x, &y?)))
                }),
                |r| match r {
                    Ok(None) => plain(Obs::None),
                    Ok(Some(n)) => plain(Obs::Num(n)),
                    Err(e) => err(e),
                },
            )
        }
        VName(_) => {
            let v = f.v.as_ref().unwrap();
            done(probe(|| v.name()), |r| plain(rname(r, base)))
        }
        VType(_) => {
            let v = f.v.as_ref().unwrap();
            done(probe(|| v.data_type()), |r| match r {
                Ok(t) => plain(Obs::Num(t as u32 as u64)),
                Err(e) => err(e),
            })
        }
        VSize(_) => {
            let v = f.v.as_ref().unwrap();
            done(probe(|| v.data_size()), |r| plain(Obs::Num(r as u64)))
        }
        VData(_) => {
            let v = f.v.as_ref().unwrap();
            done(probe(|| v.data()), |r| match r {
                Ok(KeyValueData::Small(b)) => plain(Obs::Data {
                    big: false,
                    off: (b.as_ptr() as usize).wrapping_sub(base) as i64,
                    bytes: b.to_vec(),
                }),
                Ok(KeyValueData::Big(i)) => (Obs::Iter, New::It(It::Big(i))),
                Err(e) => err(e),
            })
        }
        #[cfg(feature = "alloc")]
        VVec(_) => {
            let v = f.v.as_ref().unwrap();
            done(probe(|| v.data().and_then(|d| d.into_vec())), |r| match r {
                Ok(b) => plain(Obs::Owned(b)),
                Err(e) => err(e),
            })
        }
        #[cfg(feature = "alloc")]
        VStr(_) => {
            let v: &KeyValue<B> = f.v.as_ref().unwrap();
            done(probe(|| string_of(v)), |r| str_out(r))
        }
        #[cfg(feature = "alloc")]
        VMulti(_) => {
            let v = f.v.as_ref().unwrap();
            done(probe(|| v.multi_string_data()), |r| match r {
                Ok(i) => (Obs::Iter, New::It(It::Multi(i))),
                Err(e) => err(e),
            })
        }
        #[cfg(not(feature = "alloc"))]
        VVec(_) | VStr(_) | VMulti(_) => (Rec { obs: Obs::Skip, use_: Usage::default() }, New::No),
        VDword(_) => {
            let v = f.v.as_ref().unwrap();
            done(probe(|| v.dword_data()), |r| match r {
                Ok(n) => plain(Obs::Num(n as u64)),
                Err(e) => err(e),
            })
        }
        VQword(_) => {
            let v = f.v.as_ref().unwrap();
            done(probe(|| v.qword_data()), |r| match r {
                Ok(n) => plain(Obs::Num(n)),
                Err(e) => err(e),
            })
        }
        VClone(_) => {
            let v = f.v.as_ref().unwrap();
            done(probe(|| (**v).clone()), |r| val_out(Ok(r), base))
        }
        VEq(..) => {
            let (v, v2) = (f.v.as_ref().unwrap(), f.v2.as_ref().unwrap());
            done(probe(|| **v == **v2), |r| plain(Obs::Bool(r)))
        }
        VText(_, m) => {
            let v = f.v.as_ref().unwrap();
            text(v.name(), *m)
        }
        VCmpStr(_, s) => {
            let v = f.v.as_ref().unwrap();
            done(probe(|| v.name().map(|n| cmp_str(&n, s))), |r| match r {
                Ok(n) => plain(Obs::Num(n)),
                Err(e) => err(e),
            })
        }
        INext(_) => match f.it.as_mut().unwrap() {
            It::Subs(i) => done(probe(|| i.next()), |r| opt(r, |r| key_out(r, base))),
            It::Vals(i) => done(probe(|| i.next()), |r| opt(r, |r| val_out(r, base))),
            It::Big(i) => done(probe(|| i.next()), |r| opt(r, |r| slice_out(r, base))),
            #[cfg(feature = "alloc")]
            It::Multi(i) => done(probe(|| i.next()), |r| opt(r, str_out)),
        },
        INth(_, n) => match f.it.as_mut().unwrap() {
            It::Subs(i) => done(probe(|| i.nth(*n)), |r| opt(r, |r| key_out(r, base))),
            It::Vals(i) => done(probe(|| i.nth(*n)), |r| opt(r, |r| val_out(r, base))),
            It::Big(i) => done(probe(|| i.nth(*n)), |r| opt(r, |r| slice_out(r, base))),
            #[cfg(feature = "alloc")]
            It::Multi(i) => done(probe(|| i.nth(*n)), |r| opt(r, str_out)),
        },
        ILast(_) => match f.it.as_ref().unwrap().dup() {
            It::Subs(i) => done(probe(|| i.last()), |r| opt(r, |r| key_out(r, base))),
            It::Vals(i) => done(probe(|| i.last()), |r| opt(r, |r| val_out(r, base))),
            It::Big(i) => done(probe(|| i.last()), |r| opt(r, |r| slice_out(r, base))),
            #[cfg(feature = "alloc")]
            It::Multi(i) => done(probe(|| i.last()), |r| opt(r, str_out)),
        },
        IHint(_) => {
            let p = match f.it.as_ref().unwrap() {
                It::Subs(i) => probe(|| i.size_hint()),
                It::Vals(i) => probe(|| i.size_hint()),
                It::Big(i) => probe(|| i.size_hint()),
                #[cfg(feature = "alloc")]
                It::Multi(i) => probe(|| i.size_hint()),
            };
            done(p, |(a, b)| plain(Obs::Hint(a, b)))
        }
        ILen(_) => {
            let p = match f.it.as_ref().unwrap() {
                It::Subs(SubKeyNodes::Leaf(i)) => probe(|| i.len()),
                It::Vals(i) => probe(|| i.len()),
                It::Big(i) => probe(|| i.len()),
                _ => return (Rec { obs: Obs::Skip, use_: Usage::default() }, New::No),
            };
            done(p, |n| plain(Obs::Num(n as u64)))
        }
        ICount(_) => {
            let p = match f.it.as_ref().unwrap().dup() {
                It::Subs(i) => probe(|| i.count()),
                It::Vals(i) => probe(|| i.count()),
                It::Big(i) => probe(|| i.count()),
                #[cfg(feature = "alloc")]
                It::Multi(i) => probe(|| i.count()),
            };
            done(p, |n| plain(Obs::Num(n as u64)))
        }
        IClone(_) => done(probe(|| f.it.as_ref().unwrap().dup()), |i| (Obs::Iter, New::It(i))),
        ICollect(_, max) => {
            let mut l = Vec::new();
            let mut total = Usage::default();
            for _ in 0..*max {
                let (r, n) = match f.it.as_mut().unwrap() {
                    It::Subs(i) => done(probe(|| i.next()), |r| opt(r, |r| key_out(r, base))),
                    It::Vals(i) => done(probe(|| i.next()), |r| opt(r, |r| val_out(r, base))),
                    It::Big(i) => done(probe(|| i.next()), |r| opt(r, |r| slice_out(r, base))),
                    #[cfg(feature = "alloc")]
                    It::Multi(i) => done(probe(|| i.next()), |r| opt(r, str_out)),
                };
                drop(n);
                total.steps += r.use_.steps;
                total.derefs += r.use_.derefs;
                if r.obs.is_crash() {
                    return (Rec { obs: r.obs, use_: total }, New::No);
                }
                let end = r.obs == Obs::None;
                l.push(r.obs);
                if end {
                    break;
                }
            }
            (Rec { obs: Obs::List(l), use_: total }, New::No)
        }
    }
}

#[cfg(feature = "alloc")]
fn string_of<'x, B: SplitByteSlice>(v: &'x KeyValue<'x, B>) -> Result<String> {
    v.string_data()
}

fn text<'h, B: SplitByteSlice>(n: Result<NtHiveNameString>, m: u8) -> (Rec, New<'h, B>) {
    let n = match n {
        Ok(n) => n,
        Err(e) => return (Rec { obs: Obs::Err(conv(&e)), use_: Usage::default() }, New::No),
    };
    match m {
        #[cfg(feature = "alloc")]
        0 => done(probe(|| n.to_string_lossy()), |s| plain(Obs::Str(s))),
        #[cfg(feature = "alloc")]
        1 => done(probe(|| n.to_string_checked()), |s| plain(Obs::OptStr(s))),
        _ => done(
            probe(|| {
                let mut s = Sink(3);
                let _ = write!(s, "{n}");
                simcore::rng::mix(s.0)
            }),
            |h| plain(Obs::Num(h)),
        ),
    }
}

/// Single-threaded session step.
fn step_in<'h, B>(hive: &'h Hive<B>, base: usize, t: &mut Tables<'h, B>, c: &Call) -> Rec
where
    B: SplitByteSlice + Clone + 'h,
{
    match t.fetch(c) {
        None => Rec { obs: Obs::Skip, use_: Usage::default() },
        Some(mut f) => {
            let (r, n) = perform_in(hive, base, c, &mut f);
            t.commit(c, f, n);
            r
        }
    }
}

/// Result of opening: with validation / without.
fn open_in<B: SplitByteSlice>(bytes: B, validate: bool) -> (Rec, Option<Hive<B>>) {
    let p = if validate { probe(|| Hive::new(bytes)) } else { probe(|| Hive::without_validation(bytes)) };
    match p {
        (Ok(Ok(h)), u) => (Rec { obs: Obs::Unit, use_: u }, Some(h)),
        (Ok(Err(e)), u) => (Rec { obs: Obs::Err(conv(&e)), use_: u }, None),
        (Err(f), u) => (Rec { obs: fail_obs(f), use_: u }, None),
    }
}

/// Complete listing through the public API. Err: the first call that did not give an answer.
fn dump_in<B: SplitByteSlice>(hive: &Hive<B>) -> Result<Vec<Line>, (String, Obs)> {
    let (r, _) = probe_budget(20_000_000_000, || dump_inner(hive));
    match r {
        Ok(Ok(l)) => Ok(l),
        Ok(Err((s, e))) => Err((s.to_string(), e)),
        Err(f) => Err(("walk".into(), fail_obs(f))),
    }
}

fn dump_inner<B: SplitByteSlice>(hive: &Hive<B>) -> Result<Vec<Line>, (&'static str, Obs)> {
    let e = |s: &'static str| move |e: NtHiveError| (s, Obs::Err(conv(&e)));
    let mut out = Vec::new();
    let root = hive.root_key_node().map_err(e("root_key_node"))?;
    let mut stack: Vec<Option<SubKeyNodes<B>>> = Vec::new();
    let mut cur = Some(root);
    loop {
        if let Some(k) = cur.take() {
            let depth = stack.len() as u32;
            let n = k.name().map_err(e("KeyNode::name"))?;
            let class = match k.class_name() {
                None => None,
                Some(c) => Some(raw(&c.map_err(e("class_name"))?).1),
            };
            let (latin1, name) = raw(&n);
            out.push(Line::Key { depth, latin1, name, class });
            if let Some(vals) = k.values() {
                for v in vals.map_err(e("values"))? {
                    let v = v.map_err(e("values next"))?;
                    let (latin1, name) = raw(&v.name().map_err(e("KeyValue::name"))?);
                    let ty = match v.data_type() {
                        Ok(t) => t as u32,
                        Err(NtHiveError::UnsupportedKeyValueDataType { actual, .. }) => actual,
                        Err(x) => return Err(("data_type", Obs::Err(conv(&x)))),
                    };
                    let data = v.data().map_err(e("data"))?;
                    #[cfg(feature = "alloc")]
                    let data = data.into_vec().map_err(e("into_vec"))?;
                    #[cfg(not(feature = "alloc"))]
                    let data = match data {
                        KeyValueData::Small(b) => b.to_vec(),
                        KeyValueData::Big(i) => {
                            let mut all = Vec::new();
                            for s in i {
                                all.extend_from_slice(s.map_err(e("into_vec"))?);
                            }
                            all
                        }
                    };
                    out.push(Line::Val { depth, latin1, name, ty, size: v.data_size(), data });
                }
            }
            let subs = match k.subkeys() {
                None => None,
                Some(s) => Some(s.map_err(e("subkeys"))?),
            };
            stack.push(subs);
            if out.len() > 1_000_000 || stack.len() > 700 {
                return Err(("walk", Obs::Steps));
            }
        }
        let Some(top) = stack.last_mut() else { break };
        match top.as_mut().and_then(|i| i.next()) {
            None => {
                stack.pop();
            }
            Some(k) => cur = Some(k.map_err(e("subkeys next"))?),
        }
    }
    Ok(out)
}

fn raw(n: &NtHiveNameString) -> (bool, Vec<u8>) {
    match n {
        NtHiveNameString::Latin1(b) => (true, b.to_vec()),
        NtHiveNameString::Utf16LE(b) => (false, b.to_vec()),
    }
}

/// Opens without validation and clears the volatile subkey counts.
fn clear_in<B: SplitByteSliceMut>(bytes: B, budget: u64) -> Rec {
    let (r, h) = open_in(bytes, false);
    let Some(mut h) = h else { return r };
    match probe_budget(budget, || h.clear_volatile_subkeys()) {
        (Ok(Ok(())), u) => Rec { obs: Obs::Unit, use_: u },
        (Ok(Err(e)), u) => Rec { obs: Obs::Err(conv(&e)), use_: u },
        (Err(f), u) => Rec { obs: fail_obs(f), use_: u },
    }
}

// Generic code is compiled where it is used, but only this crate and nt-hive are compiled with
// callbacks. So what the simulator calls are functions of this crate about concrete types.

/// Byte slices a hive can be opened and walked in.
pub trait Bytes: SplitByteSlice + Sized {
    fn open_(self, validate: bool) -> (Rec, Option<Hive<Self>>);
    fn dump_(hive: &Hive<Self>) -> Result<Vec<Line>, (String, Obs)>;
}
/// Byte slices whose handles can be kept.
pub trait Shared: Bytes + Clone {
    fn perform_<'h>(hive: &'h Hive<Self>, base: usize, c: &Call, f: &mut Fetched<'h, Self>) -> (Rec, New<'h, Self>)
    where
        Self: 'h;
    fn step_<'h>(hive: &'h Hive<Self>, base: usize, t: &mut Tables<'h, Self>, c: &Call) -> Rec
    where
        Self: 'h;
}
/// Byte slices a hive can be changed in.
pub trait Own: Bytes {
    fn clear_(self, budget: u64) -> Rec;
}

macro_rules! bytes {
    ($($t:ty)*) => {$(
        impl Bytes for $t {
            #[inline(never)]
            fn open_(self, validate: bool) -> (Rec, Option<Hive<Self>>) {
                open_in(self, validate)
            }
            #[inline(never)]
            fn dump_(hive: &Hive<Self>) -> Result<Vec<Line>, (String, Obs)> {
                dump_in(hive)
            }
        }
    )*};
}
macro_rules! shared {
    ($($t:ty)*) => {$(
        impl Shared for $t {
            #[inline(never)]
            fn perform_<'h>(hive: &'h Hive<Self>, base: usize, c: &Call, f: &mut Fetched<'h, Self>) -> (Rec, New<'h, Self>)
            where
                Self: 'h,
            {
                perform_in(hive, base, c, f)
            }
            #[inline(never)]
            fn step_<'h>(hive: &'h Hive<Self>, base: usize, t: &mut Tables<'h, Self>, c: &Call) -> Rec
            where
                Self: 'h,
            {
                step_in(hive, base, t, c)
            }
        }
    )*};
}
macro_rules! own {
    ($($t:ty)*) => {$(
        impl Own for $t {
            #[inline(never)]
            fn clear_(self, budget: u64) -> Rec {
                clear_in(self, budget)
            }
        }
    )*};
}
bytes!(&[u8] &mut [u8] core::cell::Ref<'_, [u8]> core::cell::RefMut<'_, [u8]>);
shared!(&[u8]);
own!(&mut [u8] core::cell::RefMut<'_, [u8]>);
#[cfg(feature = "host")]
bytes!(simcore::seam::SimBytes simcore::seam::SimBytesMut);
#[cfg(feature = "host")]
shared!(simcore::seam::SimBytes);
#[cfg(feature = "host")]
own!(simcore::seam::SimBytesMut);

pub fn open<B: Bytes>(bytes: B, validate: bool) -> (Rec, Option<Hive<B>>) {
    bytes.open_(validate)
}
pub fn dump<B: Bytes>(hive: &Hive<B>) -> Result<Vec<Line>, (String, Obs)> {
    B::dump_(hive)
}
pub fn perform<'h, B: Shared + 'h>(hive: &'h Hive<B>, base: usize, c: &Call, f: &mut Fetched<'h, B>) -> (Rec, New<'h, B>) {
    B::perform_(hive, base, c, f)
}
pub fn step<'h, B: Shared + 'h>(hive: &'h Hive<B>, base: usize, t: &mut Tables<'h, B>, c: &Call) -> Rec {
    B::step_(hive, base, t, c)
}
pub fn clear<B: Own>(bytes: B, budget: u64) -> Rec {
    bytes.clear_(budget)
}
