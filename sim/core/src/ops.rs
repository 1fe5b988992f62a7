//! Calls of the public API, with all arguments resolved.
#[cfg(not(feature = "host"))]
#[allow(unused_imports)]
use crate::prelude::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    Root,
    Validate,
    Major,
    Minor,
    KName(usize),
    KClass(usize),
    KSub(usize, String),
    KPath(usize, String),
    KVal(usize, String),
    KSubs(usize),
    KVals(usize),
    KClone(usize),
    KEq(usize, usize),
    KDrop(usize),
    /// Owned / formatted name. Mode: 0 lossy, 1 checked, 2 Display, 3 class lossy.
    KText(usize, u8),
    /// All comparison operators of a key's name with a string.
    KCmpStr(usize, String),
    KCmp(usize, usize),
    /// Two names: kind (0 key, 1 class, 2 value) + 3 * handle.
    NCmp(usize, usize),
    VName(usize),
    VType(usize),
    VSize(usize),
    VData(usize),
    VVec(usize),
    VStr(usize),
    VMulti(usize),
    VDword(usize),
    VQword(usize),
    VClone(usize),
    VEq(usize, usize),
    VDrop(usize),
    VText(usize, u8),
    VCmpStr(usize, String),
    INext(usize),
    INth(usize, usize),
    IHint(usize),
    ILen(usize),
    ICount(usize),
    ILast(usize),
    IClone(usize),
    IDrop(usize),
    /// next() until None or this many items; handles are not kept.
    ICollect(usize, usize),
}

/// Groups of operations, for attributing violations to properties.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum G {
    Open,
    Header,
    Nav,
    Enum,
    Lookup,
    /// Name comparisons.
    Cmp,
    Name,
    Text,
    Meta,
    Data,
    Typed,
    Iter,
    Dump,
    /// Opening what a crashed flush left.
    Crash,
    Clear,
    Tool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum C {
    /// Another answer than the true one.
    Value,
    /// An error although the answer is there.
    Spurious,
    /// An answer although it cannot be known.
    Missed,
    /// An error that does not tell the truth.
    WrongErr,
    /// Panic.
    Panic,
    Stack,
    /// Work not bounded.
    Cost,
    /// No answer: the simulator gave the call up.
    Endless,
    /// Heap used where it must not be, or too much of it.
    Alloc,
    Order,
    /// Buffer changed.
    Write,
    /// Result depends on something other than the bytes.
    Depends,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub g: G,
    pub c: C,
    pub msg: String,
    pub damaged: bool,
}

impl Viol {
    pub fn class(&self) -> String {
        format!("{:?}/{:?}", self.g, self.c)
    }
}

impl Call {
    pub fn group(&self) -> G {
        use Call::*;
        match self {
            Root | KClone(_) | KEq(..) | KDrop(_) | VClone(_) | VEq(..) | VDrop(_) => G::Nav,
            Validate | Major | Minor => G::Header,
            KSubs(_) | KVals(_) => G::Enum,
            KName(_) | KClass(_) | VName(_) => G::Name,
            KCmpStr(..) | KCmp(..) | NCmp(..) | VCmpStr(..) => G::Cmp,
            KText(..) | VText(..) => G::Text,
            KSub(..) | KPath(..) | KVal(..) => G::Lookup,
            VType(_) | VSize(_) => G::Meta,
            VData(_) => G::Data,
            VVec(_) | VStr(_) | VMulti(_) | VDword(_) | VQword(_) => G::Typed,
            INext(_) | INth(..) | IHint(_) | ILen(_) | ICount(_) | ILast(_) | IClone(_) | IDrop(_) | ICollect(..) => G::Iter,
        }
    }
    /// Calls that promise not to allocate.
    pub fn zero_copy(&self) -> bool {
        use Call::*;
        !matches!(self, KText(_, 0 | 1 | 3) | VText(_, 0 | 1) | VVec(_) | VStr(_) | ICollect(..))
    }
}

// ---------------------------------------------------------------- as bytes, for other processes

fn put(o: &mut Vec<u8>, x: usize) {
    o.extend_from_slice(&(x.min(u32::MAX as usize) as u32).to_le_bytes());
}

/// Reads what `put` and `Call::encode` wrote.
pub struct Input<'a>(pub &'a [u8]);

impl<'a> Input<'a> {
    pub fn bytes(&mut self, n: usize) -> Option<&'a [u8]> {
        let (a, b) = self.0.split_at_checked(n)?;
        self.0 = b;
        Some(a)
    }
    pub fn num(&mut self) -> Option<usize> {
        let b = self.bytes(4)?;
        Some(u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize)
    }
    fn text(&mut self) -> Option<String> {
        let n = self.num()?;
        String::from_utf8(self.bytes(n)?.to_vec()).ok()
    }
}

pub fn put_bytes(o: &mut Vec<u8>, b: &[u8]) {
    put(o, b.len());
    o.extend_from_slice(b);
}

macro_rules! codec {
    ($($code:literal $name:ident $kind:tt),* $(,)?) => {
        impl Call {
            pub fn encode(&self, o: &mut Vec<u8>) {
                match self {
                    $(codec!(@pat $name $kind a b) => { o.push($code); codec!(@put o $kind a b); })*
                }
            }
            pub fn decode(i: &mut Input) -> Option<Call> {
                let code = i.bytes(1)?[0];
                Some(match code {
                    $($code => codec!(@get i $name $kind),)*
                    _ => return None,
                })
            }
            /// Numeric arguments as a 32-bit machine can pass them.
            pub fn narrow(&mut self) {
                if let Call::INth(_, n) | Call::ICollect(_, n) = self {
                    *n = (*n).min(u32::MAX as usize);
                }
            }
        }
    };
    (@pat $n:ident z $a:ident $b:ident) => { Call::$n };
    (@pat $n:ident u $a:ident $b:ident) => { Call::$n($a) };
    (@pat $n:ident uu $a:ident $b:ident) => { Call::$n($a, $b) };
    (@pat $n:ident um $a:ident $b:ident) => { Call::$n($a, $b) };
    (@pat $n:ident us $a:ident $b:ident) => { Call::$n($a, $b) };
    (@put $o:ident z $a:ident $b:ident) => {};
    (@put $o:ident u $a:ident $b:ident) => { put($o, *$a) };
    (@put $o:ident uu $a:ident $b:ident) => { put($o, *$a); put($o, *$b) };
    (@put $o:ident um $a:ident $b:ident) => { put($o, *$a); put($o, *$b as usize) };
    (@put $o:ident us $a:ident $b:ident) => { put($o, *$a); put_bytes($o, $b.as_bytes()) };
    (@get $i:ident $n:ident z) => { Call::$n };
    (@get $i:ident $n:ident u) => { Call::$n($i.num()?) };
    (@get $i:ident $n:ident uu) => { Call::$n($i.num()?, $i.num()?) };
    (@get $i:ident $n:ident um) => { Call::$n($i.num()?, $i.num()? as u8) };
    (@get $i:ident $n:ident us) => { Call::$n($i.num()?, $i.text()?) };
}

codec! {
    0 Root z, 1 Validate z, 2 Major z, 3 Minor z, 4 KName u, 5 KClass u, 6 KSub us, 7 KPath us, 8 KVal us, 9 KSubs u,
    10 KVals u, 11 KClone u, 12 KEq uu, 13 KDrop u, 14 KText um, 15 KCmpStr us, 16 KCmp uu, 17 VName u, 18 VType u,
    19 VSize u, 20 VData u, 21 VVec u, 22 VStr u, 23 VMulti u, 24 VDword u, 25 VQword u, 26 VClone u, 27 VEq uu,
    28 VDrop u, 29 VText um, 30 VCmpStr us, 31 INext u, 32 INth uu, 33 IHint u, 34 ILen u, 35 ICount u, 36 ILast u,
    37 IClone u, 38 IDrop u, 39 ICollect uu, 40 NCmp uu,
}

pub fn iter_of(c: &Call) -> Option<usize> {
    use Call::*;
    match c {
        INext(i) | INth(i, _) | IHint(i) | ILen(i) | ICount(i) | ILast(i) | IClone(i) | IDrop(i) | ICollect(i, _) => Some(*i),
        _ => None,
    }
}
