//! Canonical observations: what a caller can see of a call, with addresses made relative to the buffer.
#[cfg(not(feature = "host"))]
#[allow(unused_imports)]
use crate::prelude::*;

/// Mirror of NtHiveError (the core knows nothing of nt-hive).
#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum RErr {
    Checksum { expected: u32, actual: u32 },
    DataSize { off: usize, expected: usize, actual: usize },
    Sig4 { off: usize, expected: Vec<u8>, actual: [u8; 4] },
    HeaderSize { off: usize, expected: usize, actual: usize },
    KvType { expected: Vec<u32>, actual: u32 },
    SizeField { off: usize, expected: usize, actual: usize },
    SizeAlign { off: usize, size: usize, align: usize },
    Sig2 { off: usize, expected: Vec<u8>, actual: [u8; 2] },
    SeqMismatch { primary: u32, secondary: u32 },
    Unalloc { off: usize, size: i32 },
    Cluster { expected: u32, actual: u32 },
    FileFormat { expected: u32, actual: u32 },
    FileType { expected: u32, actual: u32 },
    UnsuppType { off: usize, actual: u32 },
    Version { major: u32, minor: u32 },
    /// A variant this simulator does not know (its debug text).
    Other(String),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Obs {
    /// The operation had no handle to work on.
    Skip,
    None,
    Unit,
    Err(RErr),
    Panic(String),
    /// Simulator budget exceeded.
    Steps,
    Stack,
    Bool(bool),
    Num(u64),
    Name { latin1: bool, off: i64, bytes: Vec<u8> },
    /// Key or value handle, identified by its name.
    Key(Box<Obs>),
    Val(Box<Obs>),
    /// Slice of the buffer.
    Bytes { off: i64, bytes: Vec<u8> },
    /// Kind of raw data.
    Data { big: bool, off: i64, bytes: Vec<u8> },
    Owned(Vec<u8>),
    Str(String),
    OptStr(Option<String>),
    Hint(usize, Option<usize>),
    /// An iterator was created.
    Iter,
    List(Vec<Obs>),
}

impl Obs {
    pub fn is_err(&self) -> bool {
        matches!(self, Obs::Err(_))
    }
    pub fn is_crash(&self) -> bool {
        matches!(self, Obs::Panic(_) | Obs::Steps | Obs::Stack)
    }
    pub fn short(&self) -> String {
        let s = format!("{self:?}");
        if s.len() > 200 {
            let mut e = 200;
            while !s.is_char_boundary(e) {
                e -= 1;
            }
            format!("{}...({} bytes)", &s[..e], s.len())
        } else {
            s
        }
    }
    pub fn hash(&self) -> u64 {
        use crate::rng::{hash_bytes, mix};
        match self {
            Obs::Name { latin1, off, bytes } => hash_bytes(bytes, mix(*off as u64 * 2 + *latin1 as u64 + 11)),
            Obs::Bytes { off, bytes } => hash_bytes(bytes, mix(*off as u64 + 13)),
            Obs::Data { big, off, bytes } => hash_bytes(bytes, mix(*off as u64 * 2 + *big as u64 + 17)),
            Obs::Owned(b) => hash_bytes(b, 19),
            Obs::Str(s) => hash_bytes(s.as_bytes(), 23),
            Obs::Key(o) => mix(o.hash() + 29),
            Obs::Val(o) => mix(o.hash() + 31),
            Obs::List(l) => l.iter().fold(37, |h, o| mix(h ^ o.hash())),
            _ => hash_bytes(format!("{self:?}").as_bytes(), 7),
        }
    }
}

/// One executed call.
#[derive(Clone, Debug)]
pub struct Rec {
    pub obs: Obs,
    pub use_: crate::seam::Usage,
}
