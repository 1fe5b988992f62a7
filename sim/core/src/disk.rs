//! The simulated disk: one file, written by the registry writer's flush protocol with crashes at any
//! point, and storage faults applied to what is on it.
use crate::model::Line;
use crate::refreader::{Field, Img, K};
use crate::rng::Rng;
use crate::writer::{checksum, Writer, BB};

pub const SECTOR: usize = 512;

#[derive(Clone, Debug, Default)]
pub struct Disk {
    pub file: Vec<u8>,
    /// Earlier contents, for stale sectors.
    pub past: Vec<u8>,
    pub clean: bool,
    pub committed: Option<Vec<Line>>,
    /// State a crashed flush was writing.
    pub inflight: Vec<Vec<Line>>,
    seq: u32,
    pub faulty: bool,
}

impl Disk {
    pub fn new(seq: u32) -> Disk {
        Disk { seq, ..Default::default() }
    }

    /// Writes with a plan deciding the fate of each sector.
    fn put(&mut self, off: usize, data: &[u8], mut fate: impl FnMut(usize) -> Fate) {
        if self.file.len() < off + data.len() {
            self.file.resize(off + data.len(), 0);
        }
        for (i, s) in data.chunks(SECTOR).enumerate() {
            let o = off + i * SECTOR;
            if self.file[o..o + s.len()] == *s {
                continue;
            }
            match fate(i) {
                Fate::Kept => self.file[o..o + s.len()].copy_from_slice(s),
                Fate::Lost => {}
                Fate::Torn(k) => {
                    let k = k.min(s.len());
                    self.file[o..o + k].copy_from_slice(&s[..k]);
                }
            }
        }
    }

    /// A flush, crashing in `phase` (8 or more: it completes). Returns the number of writes in flight
    /// that did not fully reach the disk.
    pub fn flush(&mut self, w: &mut Writer, phase: u64, seed: u64) -> u64 {
        let mut r = Rng::new(seed ^ 0xf1a5);
        let new_dump = w.model().dump();
        self.past = self.file.clone();
        let first = self.file.is_empty();
        let n = self.seq.wrapping_add(1);
        let hurt = std::cell::Cell::new(0u64);
        let mut torn = |r: &mut Rng, p: u64| {
            let f = if r.chance(p) {
                Fate::Kept
            } else if r.chance(600) {
                Fate::Lost
            } else {
                Fate::Torn(1 + r.idx(SECTOR - 1))
            };
            if !matches!(f, Fate::Kept) {
                hurt.set(hurt.get() + 1);
            }
            f
        };
        let phase = if first { 8 } else { phase };
        if phase == 0 {
            return 0;
        }
        self.inflight.push(new_dump.clone());
        self.clean = false;
        let old_secondary = u32::from_le_bytes(self.file.get(8..12).map_or([0; 4], |b| b.try_into().unwrap()));
        let b1 = w.base_block(n, old_secondary);
        if phase == 1 {
            self.put(0, &b1, |_| torn(&mut r, 200));
            return hurt.get();
        }
        self.put(0, &b1, |_| Fate::Kept);
        self.seq = n;
        if phase == 2 {
            return 0;
        }
        let data = w.data.clone();
        if phase <= 5 {
            let p = r.pick(&[50, 300, 500, 700, 950]);
            // The file may have grown already, or not.
            let extends = self.file.len() < BB + data.len();
            let cut = if extends && r.chance(300) { self.file.len().saturating_sub(BB) } else { data.len() };
            self.put(BB, &data[..cut.min(data.len())], |_| torn(&mut r, p));
            return hurt.get();
        }
        self.put(BB, &data, |_| Fate::Kept);
        self.file.truncate(BB + data.len());
        let b2 = w.base_block(n, n);
        if phase == 6 {
            self.put(0, &b2, |_| torn(&mut r, 0));
            return hurt.get();
        }
        self.put(0, &b2, |_| Fate::Kept);
        if phase == 7 {
            // Everything was written, but the file's new length was not: the file ends where it did, or
            // somewhere in what was added.
            let old = self.past.len();
            if self.file.len() > old {
                let more = self.file.len() - old;
                let keep = match r.idx(3) {
                    0 => 0,
                    1 => r.idx(more),
                    _ => r.idx(more) / SECTOR * SECTOR,
                };
                self.file.truncate(old + keep);
                return 1;
            }
        }
        self.clean = true;
        self.committed = Some(new_dump);
        self.inflight.clear();
        0
    }

    pub fn fields(&self) -> Vec<Field> {
        Img { b: &self.file }.fields()
    }

    /// Applies one storage fault. Returns its name and the byte range touched if something changed.
    pub fn fault(&mut self, tag: &str, a: &[u64]) -> Option<&'static str> {
        let r = apply_fault(&mut self.file, &self.past, tag, a);
        if r.is_some() {
            self.faulty = true;
        }
        r
    }
}

enum Fate {
    Kept,
    Lost,
    Torn(usize),
}

pub fn apply_fault(file: &mut Vec<u8>, past: &[u8], tag: &str, a: &[u64]) -> Option<&'static str> {
    let g = |i: usize| a.get(i).copied().unwrap_or(0);
    let len = file.len();
    if len == 0 {
        return None;
    }
    let before: Option<Vec<u8>> = (len <= 1 << 16).then(|| file.clone());
    let name = match tag {
        // flip one bit anywhere
        "flip" => {
            let o = (g(0) % len as u64) as usize;
            file[o] ^= 1 << (g(1) % 8);
            "bit_flip"
        }
        // damage one field of a reachable structure: kind, index, how, argument
        "fld" => {
            let fields = Img { b: file }.fields();
            let mut kinds: Vec<K> = fields.iter().map(|f| f.kind).collect();
            kinds.sort();
            kinds.dedup();
            let want = g(0);
            if kinds.is_empty() {
                return None;
            }
            let kind = kinds[(want % kinds.len() as u64) as usize];
            let of: Vec<&Field> = fields.iter().filter(|f| f.kind == kind).collect();
            let f = *of[(g(1) % of.len() as u64) as usize];
            return set_field(file, &fields, f, g(2), g(3));
        }
        // the same, kind given by number (not by position among those present)
        "kfld" => {
            let fields = Img { b: file }.fields();
            let of: Vec<&Field> = fields.iter().filter(|f| f.kind as u64 == g(0)).collect();
            if of.is_empty() {
                return None;
            }
            let f = *of[(g(1) % of.len() as u64) as usize];
            return set_field(file, &fields, f, g(2), g(3));
        }
        // all items of one list refer to the same thing, which may be made empty or huge
        "alias" => {
            let fields = Img { b: file }.fields();
            let mut kinds: Vec<K> = fields.iter().map(|f| f.kind).collect();
            kinds.retain(|k| matches!(k, K::ValItem | K::RiItem | K::LeafItem | K::SegItem));
            kinds.sort();
            kinds.dedup();
            if kinds.is_empty() {
                return None;
            }
            let kind = kinds[(g(0) % kinds.len() as u64) as usize];
            let of: std::collections::BTreeSet<usize> = fields.iter().filter(|f| f.kind == kind).map(|f| f.at).collect();
            let seed = *of.iter().nth((g(1) % of.len() as u64) as usize).unwrap();
            let stride = if kind == K::LeafItem && !of.contains(&(seed + 4)) && !of.contains(&(seed.wrapping_sub(4))) { 8 } else { 4 };
            let target: [u8; 4] = file[seed..seed + 4].try_into().unwrap();
            for step in [stride, -(stride as isize) as usize] {
                let mut at = seed;
                while of.contains(&at) {
                    file[at..at + 4].copy_from_slice(&target);
                    at = at.wrapping_add(step);
                }
            }
            let t = BB + 4 + u32::from_le_bytes(target) as usize;
            if kind == K::RiItem && t + 4 <= len {
                match g(2) % 4 {
                    0 | 1 => file[t + 2..t + 4].fill(0),
                    2 => file[t + 2..t + 4].fill(0xff),
                    _ => {}
                }
            }
            "aliased_items"
        }
        "sec" => {
            let n = len.div_ceil(SECTOR);
            let s = (g(1) % n as u64) as usize * SECTOR;
            let e = (s + SECTOR).min(len);
            match g(0) % 5 {
                0 => {
                    file[s..e].fill(0);
                    "zero_sector"
                }
                1 => {
                    let mut r = Rng::new(g(2));
                    for x in &mut file[s..e] {
                        *x = r.next() as u8;
                    }
                    "garbage_sector"
                }
                2 => {
                    // lost write: what was there before
                    if past.len() < e {
                        return None;
                    }
                    file[s..e].copy_from_slice(&past[s..e]);
                    "stale_sector"
                }
                3 => {
                    // misdirected write: another sector's content
                    let o = (g(2) % n as u64) as usize * SECTOR;
                    let k = (e - s).min(len - o);
                    let src = file[o..o + k].to_vec();
                    file[s..s + k].copy_from_slice(&src);
                    "misdirected_sector"
                }
                _ => {
                    // torn write: only a prefix is new
                    if past.len() < e {
                        return None;
                    }
                    let k = s + (g(2) % (e - s) as u64) as usize;
                    file[k..e].copy_from_slice(&past[k..e]);
                    "torn_sector"
                }
            }
        }
        "trunc" => {
            let keep = match g(0) % 4 {
                0 => g(1) % len as u64,
                1 => len as u64 - (g(1) % 64).min(len as u64),
                2 => (len as u64 - 1) / 512 * 512,
                _ => BB as u64 + g(1) % (len.saturating_sub(BB).max(1)) as u64,
            };
            file.truncate(keep.min(len as u64) as usize);
            "short_file"
        }
        "ext" => {
            let mut r = Rng::new(g(1));
            if g(0) >= 1 << 20 {
                // much more than the hive (logs appended, a volume image, a block device)
                let old = file.len();
                file.resize(old + (g(0) - (1 << 20)) as usize, g(1) as u8);
                return Some("extended_file");
            }
            for _ in 0..1 + g(0) % 9000 {
                let x = if g(1) % 2 == 0 { 0 } else { r.next() as u8 };
                file.push(x);
            }
            "extended_file"
        }
        "garb" => {
            let mut r = Rng::new(g(2));
            let s = (g(0) % len as u64) as usize;
            let e = (s + 1 + g(1) as usize % 256).min(len);
            for x in &mut file[s..e] {
                *x = r.next() as u8;
            }
            "garbage_bytes"
        }
        // repair the header checksum (so that the damage below it is reached by validated opens)
        "sum" => {
            if len >= BB {
                let c = checksum(file);
                file[508..512].copy_from_slice(&c.to_le_bytes());
            }
            return None;
        }
        _ => return None,
    };
    if let Some(b) = before {
        if b == *file {
            return None;
        }
    }
    Some(name)
}

fn set_field(file: &mut [u8], fields: &[Field], f: Field, how: u64, arg: u64) -> Option<&'static str> {
    let w = f.width.min(8);
    let at = if f.width > 8 { f.at + (arg % (f.width as u64)) as usize } else { f.at };
    let w = if f.width > 8 { 1 } else { w };
    if at + w > file.len() {
        return None;
    }
    let mut buf = [0u8; 8];
    buf[..w].copy_from_slice(&file[at..at + w]);
    let old = u64::from_le_bytes(buf);
    let cells: Vec<usize> = fields.iter().filter(|x| x.kind == K::CellSize).map(|x| x.at).collect();
    let (new, name) = match how % 17 {
        0 => (0, "field_zero"),
        1 => (u64::MAX, "field_max"),
        2 => (old.wrapping_add(1), "field_inc"),
        3 => (old.wrapping_sub(1), "field_dec"),
        4 => (old.wrapping_add(8), "field_plus8"),
        5 => (old.wrapping_sub(8), "field_minus8"),
        6 => (old ^ (1 << (arg % (8 * w as u64))), "field_bit"),
        7 => (arg, "field_random"),
        8 | 9 | 10 => {
            if cells.is_empty() {
                return None;
            }
            // redirected reference: some other cell
            let c = cells[(arg % cells.len() as u64) as usize];
            ((c - BB) as u64, "redirect")
        }
        11 => (old.wrapping_mul(2), "field_double"),
        12 => (1, "field_one"),
        13 => {
            let mut b = buf;
            b[..w].reverse();
            (u64::from_le_bytes(b), "field_swapped")
        }
        14 => ((file.len() - BB.min(file.len())) as u64 - (arg % 12).min(file.len() as u64 - BB.min(file.len()) as u64), "field_end"),
        16 => {
            // reference that leads back: to the cell it is in, or to one that leads there
            let around = |at: usize| cells.iter().copied().filter(|c| *c <= at).max();
            let mut cur = around(f.at)?;
            for _ in 0..arg % 4 {
                let off = ((cur - BB) as u32).to_le_bytes();
                let from = fields.iter().find(|x| {
                    x.width == 4 && x.kind != K::CellSize && around(x.at) != Some(cur) && file.get(x.at..x.at + 4) == Some(&off[..])
                });
                match from.and_then(|x| around(x.at)) {
                    Some(c) => cur = c,
                    None => break,
                }
            }
            ((cur - BB) as u64, "redirect_back")
        }
        _ => {
            // the same field of another structure of the same kind
            let of: Vec<&Field> = fields.iter().filter(|x| x.kind == f.kind && x.width == f.width).collect();
            let o = of[(arg % of.len() as u64) as usize].at;
            let mut b = [0u8; 8];
            let w = w.min(file.len() - o);
            b[..w].copy_from_slice(&file[o..o + w]);
            (u64::from_le_bytes(b), "field_swapped_in")
        }
    };
    let nb = new.to_le_bytes();
    if file[at..at + w] == nb[..w] {
        return None;
    }
    file[at..at + w].copy_from_slice(&nb[..w]);
    Some(name)
}
