//! The reference reader: an independent interpretation of hive bytes that says, for each read, what a
//! truthful answer is. Where several independent things are wrong at once, every truthful error about
//! the structure is acceptable.
use crate::model::Line;
use crate::obs::RErr;
use crate::upcase;
use std::cmp::Ordering;

pub const SEG: usize = 16344;
pub const BB: usize = 4096;
pub const NONE: u32 = u32::MAX;

pub type R<T> = Result<T, Vec<RErr>>;

#[derive(Clone, Copy)]
pub struct Img<'a> {
    pub b: &'a [u8],
}

/// Cell content, in file offsets.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Span {
    pub start: usize,
    pub len: usize,
}

/// A key record: file offset of its header, and where its cell ends.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Nk {
    pub at: usize,
    pub end: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Vk {
    pub at: usize,
    pub end: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct NameAt {
    pub latin1: bool,
    pub at: usize,
    pub len: usize,
}

#[derive(Clone, Debug)]
pub enum LeafSpan {
    /// One item that cannot be read.
    Bad(Vec<RErr>),
    Items { start: usize, size: usize, count: usize },
}

/// All subkeys of a key, in order.
#[derive(Clone, Debug)]
pub struct SubList {
    pub ri: bool,
    pub spans: Vec<LeafSpan>,
    /// Number of items before each span.
    pub before: Vec<u64>,
    pub total: u64,
}

#[derive(Clone, Debug)]
pub struct ValList {
    pub start: usize,
    pub count: usize,
}

#[derive(Clone, Debug)]
pub struct BigData {
    pub list: usize,
    pub size: usize,
}

impl BigData {
    pub fn segs(&self) -> usize {
        self.size.div_ceil(SEG)
    }
}

#[derive(Clone, Debug)]
pub enum DataAt {
    Small { at: usize, len: usize },
    Big(BigData),
}

fn sig2(off: usize, expected: &[u8], actual: &[u8]) -> RErr {
    RErr::Sig2 { off, expected: expected.to_vec(), actual: [actual[0], actual[1]] }
}

impl<'a> Img<'a> {
    pub fn u16(&self, o: usize) -> u16 {
        u16::from_le_bytes(self.b[o..o + 2].try_into().unwrap())
    }
    pub fn u32(&self, o: usize) -> u32 {
        u32::from_le_bytes(self.b[o..o + 4].try_into().unwrap())
    }
    pub fn minor(&self) -> u32 {
        self.u32(24)
    }

    pub fn open_err(&self) -> Option<RErr> {
        (self.b.len() < BB).then_some(RErr::HeaderSize { off: 0, expected: BB, actual: self.b.len() })
    }

    /// Every validation rule the header breaks, each with its truthful error.
    pub fn broken_rules(&self) -> Vec<RErr> {
        let mut e = Vec::new();
        if self.b.len() < BB {
            return vec![self.open_err().unwrap()];
        }
        if &self.b[0..4] != b"regf" {
            e.push(RErr::Sig4 { off: 0, expected: b"regf".to_vec(), actual: self.b[0..4].try_into().unwrap() });
        }
        let (p, s) = (self.u32(4), self.u32(8));
        if p != s {
            e.push(RErr::SeqMismatch { primary: p, secondary: s });
        }
        let (major, minor) = (self.u32(20), self.u32(24));
        if major != 1 || minor < 3 {
            e.push(RErr::Version { major, minor });
        }
        if self.u32(28) != 0 {
            e.push(RErr::FileType { expected: 0, actual: self.u32(28) });
        }
        if self.u32(32) != 1 {
            e.push(RErr::FileFormat { expected: 1, actual: self.u32(32) });
        }
        let ds = self.u32(40) as usize;
        if ds % 4096 != 0 {
            e.push(RErr::SizeAlign { off: 40, size: ds, align: 4096 });
        }
        let have = self.b.len() - BB;
        if ds > have {
            e.push(RErr::SizeField { off: 40, expected: ds, actual: have });
        }
        if self.u32(44) != 1 {
            e.push(RErr::Cluster { expected: 1, actual: self.u32(44) });
        }
        let sum = crate::writer::checksum(self.b);
        if sum != self.u32(508) {
            // The text of the error says which is which the other way round; either reading is true.
            e.push(RErr::Checksum { expected: self.u32(508), actual: sum });
            e.push(RErr::Checksum { expected: sum, actual: self.u32(508) });
        }
        e
    }

    /// The cell at a data offset.
    pub fn cell(&self, off: u32) -> R<Span> {
        let at = BB + off as usize;
        let left = self.b.len().saturating_sub(at);
        if left < 4 {
            return Err(vec![RErr::HeaderSize { off: at, expected: 4, actual: left }]);
        }
        let size = self.u32(at) as i32;
        if size >= 0 {
            let mut e = vec![RErr::Unalloc { off: at, size }];
            if size == 0 {
                e.push(RErr::SizeField { off: at, expected: 4, actual: 0 });
            }
            return Err(e);
        }
        let size = size.unsigned_abs() as usize;
        let mut e = Vec::new();
        if size % 8 != 0 {
            e.push(RErr::SizeAlign { off: at, size, align: 8 });
        }
        if size > left {
            e.push(RErr::SizeField { off: at, expected: size - 4, actual: left - 4 });
        }
        if e.is_empty() {
            Ok(Span { start: at + 4, len: size - 4 })
        } else {
            Err(e)
        }
    }

    fn rec(&self, c: Span, size: usize, sig: &[u8]) -> R<usize> {
        if c.len < size {
            // A truncated record may also be reported by what its signature says, if that is there.
            let mut e = vec![RErr::HeaderSize { off: c.start, expected: size, actual: c.len }];
            if c.len >= 2 && &self.b[c.start..c.start + 2] != sig {
                e.push(sig2(c.start, sig, &self.b[c.start..]));
            }
            return Err(e);
        }
        if &self.b[c.start..c.start + 2] != sig {
            return Err(vec![sig2(c.start, sig, &self.b[c.start..])]);
        }
        Ok(c.start)
    }

    pub fn nk(&self, off: u32) -> R<Nk> {
        let c = self.cell(off)?;
        let at = self.rec(c, 76, b"nk")?;
        Ok(Nk { at, end: c.start + c.len })
    }

    pub fn root(&self) -> R<Nk> {
        self.nk(self.u32(36))
    }

    fn name(&self, at: usize, end: usize, len: usize, len_at: usize, latin1: bool) -> R<NameAt> {
        if len > end - at {
            return Err(vec![RErr::SizeField { off: len_at, expected: len, actual: end - at }]);
        }
        Ok(NameAt { latin1, at, len })
    }

    pub fn nk_name(&self, k: Nk) -> R<NameAt> {
        self.name(k.at + 76, k.end, self.u16(k.at + 72) as usize, k.at + 72, self.u16(k.at + 2) & 0x20 != 0)
    }

    pub fn class(&self, k: Nk) -> Option<R<NameAt>> {
        let off = self.u32(k.at + 48);
        if off == NONE {
            return None;
        }
        let len = self.u16(k.at + 74) as usize;
        Some(self.cell(off).and_then(|c| {
            if len > c.len {
                Err(vec![RErr::SizeField { off: k.at + 74, expected: len, actual: c.len }])
            } else {
                Ok(NameAt { latin1: false, at: c.start, len })
            }
        }))
    }

    fn list_header(&self, c: Span, ri: bool) -> R<([u8; 2], usize, usize)> {
        let exp: &[u8] = if ri { b"lf|lh|li|ri" } else { b"lf|lh|li" };
        let ok = |s: &[u8]| matches!(s, b"lf" | b"lh" | b"li") || (ri && s == b"ri");
        if c.len < 4 {
            let mut e = vec![RErr::HeaderSize { off: c.start, expected: 4, actual: c.len }];
            if c.len >= 2 && !ok(&self.b[c.start..c.start + 2]) {
                e.push(sig2(c.start, exp, &self.b[c.start..]));
            }
            return Err(e);
        }
        let s = &self.b[c.start..c.start + 2];
        if !ok(s) {
            return Err(vec![sig2(c.start, exp, s)]);
        }
        Ok(([s[0], s[1]], self.u16(c.start + 2) as usize, c.start + 4))
    }

    fn leaf_span(&self, sig: [u8; 2], count: usize, c: Span) -> R<LeafSpan> {
        let size = if &sig == b"li" || &sig == b"ri" { 4 } else { 8 };
        if count * size > c.len - 4 {
            return Err(vec![RErr::SizeField { off: c.start + 2, expected: count * size, actual: c.len - 4 }]);
        }
        Ok(LeafSpan::Items { start: c.start + 4, size, count })
    }

    pub fn subs(&self, k: Nk) -> Option<R<SubList>> {
        let off = self.u32(k.at + 28);
        if off == NONE {
            return None;
        }
        Some(self.sublist(off))
    }

    fn sublist(&self, off: u32) -> R<SubList> {
        let c = self.cell(off)?;
        let (sig, count, _) = self.list_header(c, true)?;
        let outer = self.leaf_span(sig, count, c)?;
        let ri = &sig == b"ri";
        let mut l = SubList { ri, spans: vec![], before: vec![], total: 0 };
        let LeafSpan::Items { start, .. } = outer else { unreachable!() };
        if !ri {
            l.before.push(0);
            l.total = count as u64;
            l.spans.push(outer);
            return Ok(l);
        }
        for i in 0..count {
            let span = match self.leaf(self.u32(start + 4 * i)) {
                Ok(s) => s,
                Err(e) => LeafSpan::Bad(e),
            };
            l.before.push(l.total);
            l.total += match &span {
                LeafSpan::Bad(_) => 1,
                LeafSpan::Items { count, .. } => *count as u64,
            };
            l.spans.push(span);
        }
        Ok(l)
    }

    fn leaf(&self, off: u32) -> R<LeafSpan> {
        let c = self.cell(off)?;
        let (sig, count, _) = self.list_header(c, false)?;
        if count == 0 {
            return Err(vec![RErr::SizeField { off: c.start + 2, expected: 1, actual: 0 }]);
        }
        self.leaf_span(sig, count, c)
    }

    /// The i-th subkey of a list.
    pub fn sub_at(&self, l: &SubList, i: u64) -> R<Nk> {
        let s = l.before.partition_point(|&b| b <= i) - 1;
        match &l.spans[s] {
            LeafSpan::Bad(e) => Err(e.clone()),
            LeafSpan::Items { start, size, .. } => self.nk(self.u32(start + (i - l.before[s]) as usize * size)),
        }
    }

    pub fn values(&self, k: Nk) -> Option<R<ValList>> {
        let off = self.u32(k.at + 40);
        if off == NONE {
            return None;
        }
        let count = self.u32(k.at + 36) as usize;
        Some(self.cell(off).and_then(|c| {
            if count * 4 > c.len {
                Err(vec![RErr::SizeField { off: k.at + 36, expected: count * 4, actual: c.len }])
            } else {
                Ok(ValList { start: c.start, count })
            }
        }))
    }

    pub fn val_at(&self, l: &ValList, i: usize) -> R<Vk> {
        let c = self.cell(self.u32(l.start + 4 * i))?;
        let at = self.rec(c, 20, b"vk")?;
        Ok(Vk { at, end: c.start + c.len })
    }

    pub fn vk_name(&self, v: Vk) -> R<NameAt> {
        self.name(v.at + 20, v.end, self.u16(v.at + 2) as usize, v.at + 2, self.u16(v.at + 16) & 1 != 0)
    }
    pub fn vk_type_raw(&self, v: Vk) -> u32 {
        self.u32(v.at + 12)
    }
    pub fn vk_type(&self, v: Vk) -> R<u32> {
        let t = self.vk_type_raw(v);
        if t <= 11 {
            Ok(t)
        } else {
            Err(vec![RErr::UnsuppType { off: v.at + 12, actual: t }])
        }
    }
    pub fn vk_size(&self, v: Vk) -> u32 {
        self.u32(v.at + 4) & 0x7fff_ffff
    }

    pub fn data(&self, v: Vk) -> R<DataAt> {
        let raw = self.u32(v.at + 4);
        let size = (raw & 0x7fff_ffff) as usize;
        if raw & 0x8000_0000 != 0 {
            if size > 4 {
                return Err(vec![RErr::SizeField { off: v.at + 4, expected: 4, actual: size },
                    RErr::SizeField { off: v.at + 4, expected: size, actual: 4 }]);
            }
            return Ok(DataAt::Small { at: v.at + 8, len: size });
        }
        let c = self.cell(self.u32(v.at + 8))?;
        if size <= SEG || self.minor() < 4 {
            if c.len < size {
                return Err(vec![RErr::DataSize { off: c.start, expected: size, actual: c.len }]);
            }
            return Ok(DataAt::Small { at: c.start, len: size });
        }
        // Big data record
        let at = self.rec(c, 8, b"db")?;
        let segs = self.u16(at + 2) as usize;
        let mut e = Vec::new();
        if size > segs * SEG {
            e.push(RErr::SizeField { off: v.at + 4, expected: segs * SEG, actual: size });
            e.push(RErr::SizeField { off: v.at + 4, expected: size, actual: segs * SEG });
        }
        match self.cell(self.u32(at + 4)) {
            Err(mut f) => e.append(&mut f),
            Ok(l) => {
                if segs * 4 > l.len {
                    e.push(RErr::SizeField { off: at + 2, expected: segs * 4, actual: l.len });
                }
                if e.is_empty() {
                    return Ok(DataAt::Big(BigData { list: l.start, size }));
                }
            }
        }
        Err(e)
    }

    pub fn seg(&self, d: &BigData, i: usize) -> R<Span> {
        let want = (d.size - i * SEG).min(SEG);
        let c = self.cell(self.u32(d.list + 4 * i))?;
        if c.len < want {
            return Err(vec![RErr::DataSize { off: c.start, expected: want, actual: c.len }]);
        }
        Ok(Span { start: c.start, len: want })
    }

    /// The complete data, or the errors of the first piece that cannot be read.
    pub fn whole(&self, v: Vk) -> R<Vec<u8>> {
        match self.data(v)? {
            DataAt::Small { at, len } => Ok(self.b[at..at + len].to_vec()),
            DataAt::Big(d) => {
                let mut out = Vec::new();
                for i in 0..d.segs() {
                    let s = self.seg(&d, i)?;
                    out.extend_from_slice(&self.b[s.start..s.start + s.len]);
                }
                Ok(out)
            }
        }
    }

    /// The data up to the first unreadable piece, and that piece's errors.
    pub fn prefix(&self, v: Vk) -> R<(Vec<u8>, Option<Vec<RErr>>)> {
        match self.data(v)? {
            DataAt::Small { at, len } => Ok((self.b[at..at + len].to_vec(), None)),
            DataAt::Big(d) => {
                let mut out = Vec::new();
                for i in 0..d.segs() {
                    match self.seg(&d, i) {
                        Ok(s) => out.extend_from_slice(&self.b[s.start..s.start + s.len]),
                        Err(e) => return Ok((out, Some(e))),
                    }
                }
                Ok((out, None))
            }
        }
    }

    pub fn units(&self, n: NameAt) -> Vec<u16> {
        let b = &self.b[n.at..n.at + n.len];
        if n.latin1 {
            b.iter().map(|&x| x as u16).collect()
        } else {
            b.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect()
        }
    }

    pub fn name_cmp(&self, n: NameAt, s: &[u16]) -> Ordering {
        upcase::cmp(&self.units(n), s)
    }

    /// What a subkey lookup may truthfully answer.
    pub fn lookup(&self, k: Nk, name: &[u16]) -> Allowed<Nk> {
        let mut a = Allowed { ok: vec![], none: false, errs: vec![] };
        let l = match self.subs(k) {
            None => {
                a.none = true;
                return a;
            }
            Some(Err(e)) => {
                a.errs = e;
                return a;
            }
            Some(Ok(l)) => l,
        };
        let n = l.total.min(100_000);
        let mut sorted = true;
        let mut prev: Option<Vec<u16>> = None;
        let mut last_less: Option<u64> = None;
        let mut first_greater: Option<u64> = None;
        let mut bad: Vec<u64> = Vec::new();
        for i in 0..n {
            let r = self.sub_at(&l, i).and_then(|x| self.nk_name(x).map(|nm| (x, nm)));
            match r {
                Err(e) => {
                    bad.push(i);
                    for x in e {
                        if !a.errs.contains(&x) {
                            a.errs.push(x);
                        }
                    }
                }
                Ok((x, nm)) => {
                    let u = self.units(nm);
                    if let Some(p) = &prev {
                        if upcase::cmp(p, &u) != Ordering::Less {
                            sorted = false;
                        }
                    }
                    match upcase::cmp(&u, name) {
                        Ordering::Equal => a.ok.push(x),
                        Ordering::Less => last_less = Some(i),
                        Ordering::Greater => {
                            if first_greater.is_none() {
                                first_greater = Some(i);
                            }
                        }
                    }
                    prev = Some(u);
                }
            }
        }
        if l.total > n {
            sorted = false;
        }
        if !sorted {
            a.none = true;
        } else if a.ok.is_empty() {
            // Absence is only established if no unreadable entry sits where the name would be.
            let lo = last_less.map_or(0, |x| x + 1);
            let hi = first_greater.unwrap_or(n);
            a.none = !bad.iter().any(|&b| b >= lo && b < hi);
        }
        a
    }

    pub fn path(&self, k: Nk, path: &[u16]) -> Allowed<Nk> {
        let mut cur = vec![k];
        let mut out = Allowed { ok: vec![], none: false, errs: vec![] };
        for comp in path.split(|&c| c == 0x5c) {
            if comp.is_empty() {
                continue;
            }
            let mut next = Vec::new();
            for c in cur {
                let a = self.lookup(c, comp);
                out.none |= a.none;
                for e in a.errs {
                    if !out.errs.contains(&e) {
                        out.errs.push(e);
                    }
                }
                for k in a.ok {
                    if !next.contains(&k) {
                        next.push(k);
                    }
                }
            }
            cur = next;
            if cur.is_empty() {
                break;
            }
        }
        out.ok = cur;
        out
    }

    pub fn value(&self, k: Nk, name: &[u16]) -> Allowed<Vk> {
        let mut a = Allowed { ok: vec![], none: false, errs: vec![] };
        let l = match self.values(k) {
            None => {
                a.none = true;
                return a;
            }
            Some(Err(e)) => {
                a.errs = e;
                return a;
            }
            Some(Ok(l)) => l,
        };
        for i in 0..l.count {
            match self.val_at(&l, i).and_then(|x| self.vk_name(x).map(|nm| (x, nm))) {
                Err(e) => {
                    for x in e {
                        if !a.errs.contains(&x) {
                            a.errs.push(x);
                        }
                    }
                }
                Ok((x, nm)) => {
                    if self.name_cmp(nm, name).is_eq() {
                        a.ok.push(x);
                        break;
                    }
                }
            }
        }
        a.none = a.ok.is_empty() && a.errs.is_empty();
        a
    }

    /// Complete listing of an intact image (None if anything cannot be read).
    pub fn dump(&self) -> Option<Vec<Line>> {
        let mut out = Vec::new();
        self.dump_key(self.root().ok()?, 0, &mut out)?;
        Some(out)
    }

    fn dump_key(&self, k: Nk, depth: u32, out: &mut Vec<Line>) -> Option<()> {
        if depth > 600 || out.len() > 2_000_000 {
            return None;
        }
        let n = self.nk_name(k).ok()?;
        let class = match self.class(k) {
            None => None,
            Some(c) => Some(c.ok()?),
        };
        out.push(Line::Key {
            depth,
            latin1: n.latin1,
            name: self.b[n.at..n.at + n.len].to_vec(),
            class: class.map(|c| self.b[c.at..c.at + c.len].to_vec()),
        });
        if let Some(l) = self.values(k) {
            let l = l.ok()?;
            for i in 0..l.count {
                let v = self.val_at(&l, i).ok()?;
                let n = self.vk_name(v).ok()?;
                out.push(Line::Val {
                    depth,
                    latin1: n.latin1,
                    name: self.b[n.at..n.at + n.len].to_vec(),
                    ty: self.vk_type_raw(v),
                    size: self.vk_size(v),
                    data: self.whole(v).ok()?,
                });
            }
        }
        if let Some(l) = self.subs(k) {
            let l = l.ok()?;
            for i in 0..l.total {
                let s = self.sub_at(&l, i).ok()?;
                self.dump_key(s, depth + 1, out)?;
            }
        }
        Some(())
    }

    // ------------------------------------------------------------ layout walk (for faults)

    /// All fields of reachable structures: (kind, file offset, width).
    pub fn fields(&self) -> Vec<Field> {
        let mut w = Walk { out: Vec::new(), seen: Default::default() };
        if self.b.len() < BB {
            return w.out;
        }
        for (o, n) in [(0, 4), (4, 4), (8, 4), (12, 8), (20, 4), (24, 4), (28, 4), (32, 4), (36, 4), (40, 4), (44, 4), (508, 4)] {
            w.out.push(Field { kind: if o == 36 { K::Root } else { K::Base }, at: o, width: n });
        }
        self.walk_nk(self.u32(36), 0, &mut w);
        w.out
    }

    fn walk_cell(&self, off: u32, w: &mut Walk) -> Option<Span> {
        let c = self.cell(off).ok()?;
        if !w.seen.insert(c.start) {
            return None;
        }
        w.out.push(Field { kind: K::CellSize, at: c.start - 4, width: 4 });
        Some(c)
    }

    fn walk_nk(&self, off: u32, depth: u32, w: &mut Walk) {
        if depth > 600 {
            return;
        }
        let Ok(k) = self.nk(off) else { return };
        if self.walk_cell(off, w).is_none() {
            return;
        }
        for (kind, o, n) in [
            (K::Sig, 0, 2),
            (K::NkFlags, 2, 2),
            (K::Spare, 4, 8),
            (K::Spare, 20, 4),
            (K::VolCount, 24, 4),
            (K::SubList, 28, 4),
            (K::ValCount, 36, 4),
            (K::ValListOff, 40, 4),
            (K::ClassOff, 48, 4),
            (K::NameLen, 72, 2),
            (K::ClassLen, 74, 2),
        ] {
            w.out.push(Field { kind, at: k.at + o, width: n });
        }
        if let Ok(n) = self.nk_name(k) {
            if n.len > 0 {
                w.out.push(Field { kind: K::NameByte, at: n.at, width: n.len });
            }
        }
        if let Some(Ok(c)) = self.class(k) {
            let off = self.u32(k.at + 48);
            self.walk_cell(off, w);
            if c.len > 0 {
                w.out.push(Field { kind: K::NameByte, at: c.at, width: c.len });
            }
        }
        if let Some(Ok(l)) = self.values(k) {
            if self.walk_cell(self.u32(k.at + 40), w).is_some() {
                for i in 0..l.count {
                    w.out.push(Field { kind: K::ValItem, at: l.start + 4 * i, width: 4 });
                    if let Ok(v) = self.val_at(&l, i) {
                        self.walk_vk(self.u32(l.start + 4 * i), v, w);
                    }
                }
            }
        }
        let lo = self.u32(k.at + 28);
        if lo != NONE {
            self.walk_list(lo, true, depth, w);
        }
    }

    fn walk_list(&self, off: u32, ri: bool, depth: u32, w: &mut Walk) {
        let Ok(c) = self.cell(off) else { return };
        let Ok((sig, count, _)) = self.list_header(c, ri) else { return };
        if self.walk_cell(off, w).is_none() {
            return;
        }
        w.out.push(Field { kind: K::Sig, at: c.start, width: 2 });
        w.out.push(Field { kind: K::ListCount, at: c.start + 2, width: 2 });
        let Ok(LeafSpan::Items { start, size, .. }) = self.leaf_span(sig, count, c) else { return };
        for i in 0..count {
            let at = start + size * i;
            let o = self.u32(at);
            if &sig == b"ri" {
                w.out.push(Field { kind: K::RiItem, at, width: 4 });
                self.walk_list(o, false, depth, w);
            } else {
                w.out.push(Field { kind: K::LeafItem, at, width: 4 });
                if size == 8 {
                    w.out.push(Field { kind: K::Spare, at: at + 4, width: 4 });
                }
                self.walk_nk(o, depth + 1, w);
            }
        }
    }

    fn walk_vk(&self, off: u32, v: Vk, w: &mut Walk) {
        if self.walk_cell(off, w).is_none() {
            return;
        }
        for (kind, o, n) in [
            (K::Sig, 0, 2),
            (K::NameLen, 2, 2),
            (K::DataSize, 4, 4),
            (K::DataOff, 8, 4),
            (K::DataType, 12, 4),
            (K::VkFlags, 16, 2),
            (K::Spare, 18, 2),
        ] {
            w.out.push(Field { kind, at: v.at + o, width: n });
        }
        if let Ok(n) = self.vk_name(v) {
            if n.len > 0 {
                w.out.push(Field { kind: K::NameByte, at: n.at, width: n.len });
            }
        }
        match self.data(v) {
            Ok(DataAt::Small { at, len }) => {
                if at != v.at + 8 {
                    self.walk_cell(self.u32(v.at + 8), w);
                }
                if len > 0 {
                    w.out.push(Field { kind: K::DataByte, at, width: len });
                }
            }
            Ok(DataAt::Big(d)) => {
                let Some(c) = self.walk_cell(self.u32(v.at + 8), w) else { return };
                w.out.push(Field { kind: K::Sig, at: c.start, width: 2 });
                w.out.push(Field { kind: K::SegCount, at: c.start + 2, width: 2 });
                w.out.push(Field { kind: K::SegList, at: c.start + 4, width: 4 });
                self.walk_cell(self.u32(c.start + 4), w);
                for i in 0..d.segs() {
                    w.out.push(Field { kind: K::SegItem, at: d.list + 4 * i, width: 4 });
                    self.walk_cell(self.u32(d.list + 4 * i), w);
                    if let Ok(s) = self.seg(&d, i) {
                        w.out.push(Field { kind: K::DataByte, at: s.start, width: s.len });
                    }
                }
            }
            Err(_) => {}
        }
    }
}

struct Walk {
    out: Vec<Field>,
    seen: std::collections::BTreeSet<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum K {
    Base,
    Root,
    CellSize,
    Sig,
    NkFlags,
    VolCount,
    SubList,
    ValCount,
    ValListOff,
    ClassOff,
    NameLen,
    ClassLen,
    NameByte,
    ValItem,
    ListCount,
    RiItem,
    LeafItem,
    DataSize,
    DataOff,
    DataType,
    VkFlags,
    DataByte,
    SegCount,
    SegList,
    SegItem,
    Spare,
}

#[derive(Clone, Copy, Debug)]
pub struct Field {
    pub kind: K,
    pub at: usize,
    pub width: usize,
}

/// The set of truthful answers to a lookup.
#[derive(Clone, Debug)]
pub struct Allowed<T> {
    pub ok: Vec<T>,
    pub none: bool,
    pub errs: Vec<RErr>,
}
