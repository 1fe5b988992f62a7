//! The simulated operating system's registry writer: keeps a tree and its on-disk image in step, with
//! an incremental cell allocator (split, merge, stale content) like the real one.
use crate::model::{Key, Name, Value};
use crate::rng::{hash_bytes, Rng};
use crate::upcase;
use std::collections::BTreeMap;

pub const SEG: usize = 16344;
pub const BB: usize = 4096;
pub const NONE: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub struct ValW {
    pub v: Value,
    cell: u32,
    data_cells: Vec<u32>,
}

#[derive(Clone, Debug)]
pub struct KeyW {
    pub parent: Option<usize>,
    pub name: Name,
    pub class: Option<Vec<u16>>,
    pub values: Vec<ValW>,
    pub subs: Vec<usize>,
    pub volatile: u32,
    form: u64,
    leaf: u64,
    lseed: u64,
    pub cell: u32,
    class_cell: u32,
    list_cells: Vec<u32>,
    list_root: u32,
    vlist: u32,
}

#[derive(Clone)]
pub struct Writer {
    pub keys: Vec<Option<KeyW>>,
    pub root: usize,
    pub data: Vec<u8>,
    free: BTreeMap<u32, u32>,
    pub minor: u32,
    pub seq: u32,
    pub ts: u64,
    /// 0 none, 1 steer the checksum to the value XOR 0, 2 to XOR 0xFFFFFFFF
    pub steer: u64,
    pub slack: u64,
    /// How deep keys may lie.
    levels: usize,
    pub default_form: u64,
    pub default_leaf: u64,
    /// Not 0: fields and bits that no reader interprets are not zero either.
    pub dress: u64,
}

const ASCII: &[u16] = &[
    0x61, 0x62, 0x63, 0x41, 0x42, 0x5f, 0x5b, 0x60, 0x7b, 0x40, 0x20, 0x30, 0x39, 0x7a, 0x5a, 0x2d, 0x2e, 0x7e, 0x6b, 0x73,
    0x69, 0x49,
];
const LATIN: &[u16] = &[0xe4, 0xc4, 0xff, 0xb5, 0xdf, 0xe5, 0xc5, 0xf7, 0xd7, 0xfe, 0xde, 0xa0, 0x80, 0xe9, 0xc9];
const WIDE: &[u16] = &[
    0x178, 0x39c, 0x3bc, 0x131, 0x130, 0x17f, 0x1c4, 0x1c5, 0x1c6, 0x3c3, 0x3c2, 0x3a3, 0x430, 0x410, 0x450, 0x400, 0xff21,
    0xff41, 0x4e2d, 0x212a, 0x2160, 0x2170, 0x24d0, 0x24b6, 0x1e9e, 0xffff, 0x100, 0x101, 0xfb00, 0x10d0, 0x2c30, 0xe000,
];

/// Characters on the edges of an encoding: of UTF-8's lengths, of the surrogates, of the planes; byte order marks.
const EDGE: &[u32] = &[
    0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1ffff, 0x20000,
    0x10ffff, 0x10fffe, 0x2028, 0x200d,
];

fn push_char(units: &mut Vec<u16>, c: u32) {
    if c < 0x10000 {
        units.push(c as u16);
    } else {
        let c = c - 0x10000;
        units.push(0xd800 + (c >> 10) as u16);
        units.push(0xdc00 + (c & 0x3ff) as u16);
    }
}

/// Deterministic name from a seed. Same low bits give near-collisions.
pub fn gen_name(seed: u64, allow_empty: bool) -> Name {
    let mut r = Rng::new(seed.wrapping_mul(0x9e37_79b9));
    if seed < 26 * 4 {
        // Simple names for minimised scenarios: a..z, a0.. etc.
        let mut u = vec![0x61 + (seed % 26) as u16];
        if seed >= 26 {
            u.push(0x30 + (seed / 26) as u16);
        }
        return Name { latin1: true, units: u };
    }
    if allow_empty && r.chance(60) {
        return Name { latin1: r.chance(500), units: vec![] };
    }
    let style = r.weighted(&[40, 20, 20, 10, 6, 8, 5]);
    let len = if (1..=16_383).contains(&(seed >> 32)) {
        ((seed >> 32) as usize).min(if allow_empty { 16_383 } else { 255 })
    } else if r.chance(8) {
        // Keys stop at 255, values at 16,383.
        if allow_empty && r.chance(300) { r.pick(&[256, 257, 300, 2000, 16_383]) } else { 255 }
    } else { 1 + r.idx(if style == 0 { 3 } else { 6 }) };
    let mut units = Vec::new();
    while units.len() < len {
        match style {
            0 => units.push(r.pick(ASCII)),
            1 => units.push(if r.chance(500) { r.pick(ASCII) } else { r.pick(LATIN) }),
            2 => units.push(match r.idx(3) {
                0 => r.pick(ASCII),
                1 => r.pick(LATIN),
                _ => r.pick(WIDE),
            }),
            3 => {
                // Characters outside the BMP, incl. Deseret (which has case, but not for the registry).
                let c = match r.idx(3) {
                    0 => 0x10400 + r.below(0x50) as u32,
                    1 => 0x1f600 + r.below(64) as u32,
                    _ => 0x10000 + r.below(0x100000) as u32,
                };
                push_char(&mut units, c);
            }
            6 => {
                if r.chance(300) {
                    units.push(r.pick(ASCII));
                } else {
                    push_char(&mut units, r.pick(EDGE));
                }
            }
            5 => {
                // On or next to a code unit that has case.
                let (l, u) = upcase::TABLE[r.idx(upcase::TABLE.len())];
                let c = r.pick(&[l, l, l, u, u, l.wrapping_add(1), l.wrapping_sub(1), u.wrapping_add(1), u.wrapping_sub(1)]);
                units.push(if c == 0x5c { 0x5d } else { c });
            }
            _ => {
                // Any code unit, lone surrogates included; no backslash.
                let u = r.below(0x10000) as u16;
                units.push(if u == 0x5c { 0x5d } else { u });
            }
        }
    }
    let fits = units.iter().all(|&u| u < 0x100);
    Name { latin1: fits && !r.chance(250), units }
}

/// Deterministic value data. Returns (type, bytes).
pub fn gen_data(kind: u64, len: u64, seed: u64) -> (u32, Vec<u8>) {
    let mut r = Rng::new(seed ^ 0xdada);
    let len = (len as usize).min(1200 * SEG);
    let any_ty = |r: &mut Rng| -> u32 {
        match r.idx(8) {
            0 => 0x0000_0100 + r.below(16) as u32,
            1 => r.next() as u32,
            _ => r.below(13) as u32,
        }
    };
    let units = |v: Vec<u16>, len: usize| -> Vec<u8> {
        let mut b: Vec<u8> = v.iter().flat_map(|u| u.to_le_bytes()).collect();
        b.truncate(len);
        b
    };
    let ch = |r: &mut Rng| -> u16 {
        match r.idx(4) {
            0 | 1 => 0x20 + r.below(0x5f) as u16,
            2 => r.pick(LATIN),
            _ => r.pick(WIDE),
        }
    };
    // Characters on the edges, also where a text, a string of a list or a segment begins and ends.
    let edges = |r: &mut Rng, v: &mut Vec<u16>| {
        for _ in 0..1 + r.idx(3) {
            if v.is_empty() {
                return;
            }
            let n = v.len();
            let at = match r.idx(6) {
                0 => 0,
                1 => n - 1,
                2 => n.saturating_sub(2),
                3 => (SEG / 2 * (1 + r.idx(1 + n / (SEG / 2)))).min(n - 1),
                4 => v.iter().position(|&u| u == 0).map_or(0, |p| (p + 1).min(n - 1)),
                _ => r.idx(n),
            };
            let mut e = Vec::new();
            push_char(&mut e, r.pick(EDGE));
            for (k, u) in e.into_iter().enumerate() {
                if at + k < n {
                    v[at + k] = u;
                }
            }
        }
    };
    match kind % 10 {
        0 => {
            let ty = any_ty(&mut r);
            (ty, (0..len).map(|_| r.next() as u8).collect())
        }
        1 => (4 + (r.below(2) as u32), (0..4).map(|_| r.next() as u8).collect()),
        2 => (11, (0..8).map(|_| r.next() as u8).collect()),
        3 => {
            // REG_SZ / REG_EXPAND_SZ, with or without terminating NUL.
            let plain = r.chance(200);
            let mut v: Vec<u16> = (0..len / 2).map(|_| if plain { 0x20 + r.below(0x5f) as u16 } else { ch(&mut r) }).collect();
            if r.chance(500) && !v.is_empty() {
                let n = v.len();
                v[n - 1] = 0;
            }
            if r.chance(120) {
                edges(&mut r, &mut v);
            }
            (1 + r.below(2) as u32, units(v, len))
        }
        4 => {
            // REG_MULTI_SZ of several strings.
            let mut v: Vec<u16> = (0..len / 2).map(|_| ch(&mut r)).collect();
            let mut p = 0;
            while p < v.len() {
                p += 1 + r.idx(if len > 4000 { 3000 } else { 8 });
                if p < v.len() {
                    v[p] = 0;
                }
            }
            if r.chance(700) {
                let n = v.len();
                for k in 1..=2 {
                    if n >= k {
                        v[n - k] = 0;
                    }
                }
            }
            if r.chance(120) {
                edges(&mut r, &mut v);
            }
            (7, units(v, len))
        }
        5 | 6 => {
            // Text whose interesting parts sit on the segment boundaries.
            let ty = if kind % 10 == 5 { 1 } else { 7 };
            let mut v: Vec<u16> = (0..(len + 1) / 2).map(|_| ch(&mut r)).collect();
            let per = SEG / 2;
            let mut b = per;
            while b < v.len() {
                match r.idx(10) {
                    0..=3 => {
                        // surrogate pair across the boundary
                        v[b - 1] = 0xd800 + r.below(0x400) as u16;
                        v[b] = 0xdc00 + r.below(0x400) as u16;
                    }
                    4 => v[b - 1] = 0xd800 + r.below(0x400) as u16,
                    5 => v[b] = 0xdc00 + r.below(0x400) as u16,
                    6 => v[b - 1] = 0,
                    7 => v[b] = 0,
                    8 => {
                        v[b - 1] = 0;
                        v[b] = if ty == 7 { 0 } else { v[b] };
                    }
                    _ => {}
                }
                b += per;
            }
            if v.len() < per && v.len() >= 2 && r.chance(500) {
                let p = r.idx(v.len() - 1);
                v[p] = 0xd83d;
                v[p + 1] = 0xde00;
            }
            if r.chance(120) {
                edges(&mut r, &mut v);
            }
            (ty, units(v, len))
        }
        7 => {
            // Arbitrary code units under a text type.
            let v: Vec<u16> = (0..len / 2 + 1)
                .map(|_| match r.idx(12) {
                    0 => 0,
                    1 => 0xd800 + r.below(0x800) as u16,
                    _ => 1 + r.below(0xfffe) as u16,
                })
                .collect();
            (r.pick(&[1, 2, 7]), units(v, len))
        }
        8 => {
            // Fixed-size type with a length that may not fit.
            (r.pick(&[4, 5, 11]), (0..len.min(12)).map(|_| r.next() as u8).collect())
        }
        _ => (3, (0..len).map(|_| r.next() as u8).collect()),
    }
}

impl Writer {
    pub fn new(minor: u32, seed: u64) -> Writer {
        let mut r = Rng::new(seed);
        let mut w = Writer {
            keys: Vec::new(),
            root: 0,
            data: Vec::new(),
            free: BTreeMap::new(),
            minor,
            seq: 1,
            ts: 0x01d0_0000_0000_0000 + r.below(1 << 40),
            steer: 0,
            slack: 0,
            levels: 511,
            default_form: 1,
            default_leaf: 512,
            dress: 0,
        };
        let name = if seed == 0 { Name { latin1: true, units: vec![0x72] } } else { gen_name(seed, false) };
        w.new_key(None, name);
        w
    }

    // ------------------------------------------------------------ cells

    fn p32(&mut self, off: u32, v: u32) {
        self.data[off as usize..off as usize + 4].copy_from_slice(&v.to_le_bytes());
    }
    fn p16(&mut self, off: u32, v: u16) {
        self.data[off as usize..off as usize + 2].copy_from_slice(&v.to_le_bytes());
    }
    fn cell_size(&self, off: u32) -> u32 {
        i32::from_le_bytes(self.data[off as usize..off as usize + 4].try_into().unwrap()).unsigned_abs()
    }

    fn grow(&mut self, need: u32) {
        let start = self.data.len() as u32;
        let size = (need + 32 + 4095) & !4095;
        self.data.resize((start + size) as usize, 0);
        self.data[start as usize..start as usize + 4].copy_from_slice(b"hbin");
        self.p32(start + 4, start);
        self.p32(start + 8, size);
        if start == 0 {
            let ts = self.ts;
            self.data[20..28].copy_from_slice(&ts.to_le_bytes());
        }
        self.p32(start + 32, size - 32);
        self.free.insert(start + 32, size - 32);
    }

    /// Allocates a cell for `len` content bytes and fills its content with them.
    fn alloc(&mut self, content: &[u8]) -> u32 {
        let need = (content.len() as u32 + 4 + 7) & !7;
        let need = need.max(8);
        let found = self.free.iter().find(|(_, &s)| s >= need).map(|(&o, &s)| (o, s));
        let (off, size) = match found {
            Some(x) => x,
            None => {
                self.grow(need);
                self.free.iter().find(|(_, &s)| s >= need).map(|(&o, &s)| (o, s)).unwrap()
            }
        };
        self.free.remove(&off);
        let keep = size - need;
        // Leave a rest as a free cell, or give the slack to the cell.
        let used = if keep >= 8 && !(self.slack > 0 && keep <= 8 * self.slack as u32) {
            self.free.insert(off + need, keep);
            self.p32(off + need, keep);
            need
        } else {
            size
        };
        self.p32(off, (-(used as i32)) as u32);
        self.data[off as usize + 4..off as usize + 4 + content.len()].copy_from_slice(content);
        off
    }

    fn free_cell(&mut self, off: u32) {
        if off == NONE {
            return;
        }
        let mut start = off;
        let mut size = self.cell_size(off);
        if let Some((&po, &ps)) = self.free.range(..off).next_back() {
            if po + ps == off {
                self.free.remove(&po);
                start = po;
                size += ps;
            }
        }
        if let Some(&ns) = self.free.get(&(off + self.cell_size(off))) {
            let no = off + self.cell_size(off);
            self.free.remove(&no);
            size += ns;
        }
        self.free.insert(start, size);
        self.p32(off, self.cell_size(off));
        self.p32(start, size);
    }

    // ------------------------------------------------------------ records

    fn nk_bytes(&self, id: usize) -> Vec<u8> {
        let k = self.keys[id].as_ref().unwrap();
        let nb = k.name.bytes();
        let mut b = vec![0u8; 76 + nb.len()];
        b[0..2].copy_from_slice(b"nk");
        let mut flags = if k.name.latin1 { 0x20u16 } else { 0 };
        if k.parent.is_none() {
            flags |= 0x0c;
        }
        b[2..4].copy_from_slice(&flags.to_le_bytes());
        b[4..12].copy_from_slice(&self.ts.to_le_bytes());
        let parent = k.parent.map(|p| self.keys[p].as_ref().unwrap().cell).unwrap_or(NONE);
        let mut p = |o: usize, v: u32| b[o..o + 4].copy_from_slice(&v.to_le_bytes());
        p(16, parent);
        p(20, k.subs.len() as u32);
        p(24, k.volatile);
        p(28, k.list_root);
        p(32, NONE);
        p(36, k.values.len() as u32);
        p(40, k.vlist);
        p(44, NONE);
        p(48, k.class_cell);
        p(52, 24);
        if self.dress != 0 {
            // Marks that Windows keeps there: access bits, largest sizes, work area, flags other than the
            // one for the name encoding, the security descriptor, lists of volatile keys.
            let mut r = Rng::new(self.dress ^ (id as u64) << 20);
            p(12, r.next() as u32);
            p(32, if r.chance(500) { NONE } else { r.next() as u32 | 0x8000_0000 });
            p(44, (r.next() as u32) % 0x10_0000);
            for o in [52, 56, 60, 64, 68] {
                p(o, r.next() as u32);
            }
            let extra = match r.idx(4) {
                0 => 0,
                1 => r.pick(&[0x0002, 0x0010, 0x0040, 0x0080, 0x0100, 0x0200, 0x1000, 0x4000, 0x8000]),
                2 => 0x0001,
                _ => r.next() as u16,
            };
            let f = flags | (extra & !0x20);
            b[2..4].copy_from_slice(&f.to_le_bytes());
        }
        b[72..74].copy_from_slice(&(nb.len() as u16).to_le_bytes());
        b[74..76].copy_from_slice(&((k.class.as_ref().map_or(0, |c| c.len()) * 2) as u16).to_le_bytes());
        b[76..].copy_from_slice(&nb);
        b
    }

    /// Rewrites a key's record in place (its size does not change).
    fn put_nk(&mut self, id: usize) {
        let b = self.nk_bytes(id);
        let o = self.keys[id].as_ref().unwrap().cell as usize + 4;
        self.data[o..o + b.len()].copy_from_slice(&b);
    }

    fn new_key(&mut self, parent: Option<usize>, name: Name) -> usize {
        let id = self.keys.len();
        self.keys.push(Some(KeyW {
            parent,
            name,
            class: None,
            values: vec![],
            subs: vec![],
            volatile: 0,
            form: self.default_form,
            leaf: self.default_leaf,
            lseed: id as u64,
            cell: NONE,
            class_cell: NONE,
            list_cells: vec![],
            list_root: NONE,
            vlist: NONE,
        }));
        let b = self.nk_bytes(id);
        let c = self.alloc(&b);
        self.keys[id].as_mut().unwrap().cell = c;
        id
    }

    fn write_list(&mut self, id: usize) {
        let old = std::mem::take(&mut self.keys[id].as_mut().unwrap().list_cells);
        for c in old {
            self.free_cell(c);
        }
        let k = self.keys[id].as_ref().unwrap();
        let (form, leaf, mut r) = (k.form % 6, k.leaf.max(1), Rng::new(k.lseed));
        let subs: Vec<(u32, Vec<u16>)> = k
            .subs
            .iter()
            .map(|&s| {
                let s = self.keys[s].as_ref().unwrap();
                (s.cell, s.name.units.clone())
            })
            .collect();
        let mut cells = Vec::new();
        let root;
        if subs.is_empty() && k.form < 6 {
            root = NONE;
        } else if form < 3 && subs.len() <= 65535 {
            root = self.write_leaf(form, &subs);
            cells.push(root);
        } else {
            let mut b = b"ri\0\0".to_vec();
            let mut p = 0;
            let mut n = 0u16;
            while p < subs.len() {
                let take = if k_uniform(leaf) { leaf as usize } else { 1 + r.idx(leaf as usize) };
                // the lists have to fit one index root
                let need = (subs.len() - p).div_ceil(65_535 - n as usize);
                let take = take.max(need).min(subs.len() - p).min(60000);
                let c = self.write_leaf(form % 3, &subs[p..p + take]);
                cells.push(c);
                b.extend_from_slice(&c.to_le_bytes());
                p += take;
                n += 1;
            }
            b[2..4].copy_from_slice(&n.to_le_bytes());
            root = self.alloc(&b);
            cells.push(root);
        }
        let k = self.keys[id].as_mut().unwrap();
        k.list_cells = cells;
        k.list_root = root;
        self.put_nk(id);
    }

    fn write_leaf(&mut self, form: u64, subs: &[(u32, Vec<u16>)]) -> u32 {
        let mut b = match form {
            0 => b"li".to_vec(),
            1 => b"lf".to_vec(),
            _ => b"lh".to_vec(),
        };
        b.extend_from_slice(&(subs.len() as u16).to_le_bytes());
        for (c, name) in subs {
            b.extend_from_slice(&c.to_le_bytes());
            if form == 1 {
                let mut h = [0u8; 4];
                for (i, &u) in name.iter().take(4).enumerate() {
                    h[i] = u.min(0xff) as u8;
                }
                b.extend_from_slice(&h);
            } else if form == 2 {
                let h = name.iter().fold(0u32, |h, &u| h.wrapping_mul(37).wrapping_add(upcase::up(u) as u32));
                b.extend_from_slice(&h.to_le_bytes());
            }
        }
        self.alloc(&b)
    }

    fn write_vlist(&mut self, id: usize) {
        let old = self.keys[id].as_ref().unwrap().vlist;
        self.free_cell(old);
        let cells: Vec<u32> = self.keys[id].as_ref().unwrap().values.iter().map(|v| v.cell).collect();
        let b: Vec<u8> = cells.iter().flat_map(|c| c.to_le_bytes()).collect();
        let c = if b.is_empty() { NONE } else { self.alloc(&b) };
        self.keys[id].as_mut().unwrap().vlist = c;
        self.put_nk(id);
    }

    fn store_data(&mut self, data: &[u8], style: u64) -> (Vec<u32>, u32, u32) {
        let n = data.len();
        if n == 0 || (n <= 4 && style % 4 != 3) {
            let mut b = [0u8; 4];
            b[..n].copy_from_slice(data);
            return (vec![], u32::from_le_bytes(b), n as u32 | 0x8000_0000);
        }
        if n <= SEG || self.minor < 4 {
            let c = self.alloc(data);
            return (vec![c], c, n as u32);
        }
        let mut cells = Vec::new();
        for s in data.chunks(SEG) {
            cells.push(self.alloc(s));
        }
        let list: Vec<u8> = cells.iter().flat_map(|c| c.to_le_bytes()).collect();
        let count = cells.len() as u16;
        let lc = self.alloc(&list);
        cells.push(lc);
        let mut b = b"db".to_vec();
        b.extend_from_slice(&count.to_le_bytes());
        b.extend_from_slice(&lc.to_le_bytes());
        let c = self.alloc(&b);
        cells.push(c);
        (cells, c, n as u32)
    }

    fn vk_bytes(&self, v: &Value, off: u32, size: u32) -> Vec<u8> {
        let nb = v.name.bytes();
        let mut b = vec![0u8; 20];
        b[0..2].copy_from_slice(b"vk");
        b[2..4].copy_from_slice(&(nb.len() as u16).to_le_bytes());
        b[4..8].copy_from_slice(&size.to_le_bytes());
        b[8..12].copy_from_slice(&off.to_le_bytes());
        b[12..16].copy_from_slice(&v.ty.to_le_bytes());
        let mut flags = v.name.latin1 as u16;
        if self.dress != 0 {
            let mut r = Rng::new(self.dress ^ hash_bytes(&nb, 9) ^ (off as u64) << 32);
            flags |= r.pick(&[0, 2, 0x8000, r.clone().next() as u16]) & !1;
            let spare = r.next() as u16;
            b[18..20].copy_from_slice(&spare.to_le_bytes());
        }
        b[16..18].copy_from_slice(&flags.to_le_bytes());
        b.extend_from_slice(&nb);
        b
    }

    // ------------------------------------------------------------ operations

    pub fn live(&self) -> Vec<usize> {
        (0..self.keys.len()).filter(|&i| self.keys[i].is_some()).collect()
    }
    fn sel(&self, k: u64) -> usize {
        let l = self.live();
        l[(k % l.len() as u64) as usize]
    }
    fn depth(&self, mut id: usize) -> usize {
        let mut d = 0;
        while let Some(p) = self.keys[id].as_ref().unwrap().parent {
            d += 1;
            id = p;
        }
        d
    }
    fn insert_sub(&mut self, parent: usize, id: usize) {
        let name = self.keys[id].as_ref().unwrap().name.clone();
        let pos = {
            let p = self.keys[parent].as_ref().unwrap();
            p.subs.partition_point(|&s| self.keys[s].as_ref().unwrap().name.cmp(&name).is_lt())
        };
        self.keys[parent].as_mut().unwrap().subs.insert(pos, id);
    }
    fn find_sub(&self, parent: usize, name: &Name) -> Option<usize> {
        let p = self.keys[parent].as_ref().unwrap();
        p.subs
            .binary_search_by(|&s| self.keys[s].as_ref().unwrap().name.cmp(name))
            .ok()
            .map(|i| p.subs[i])
    }

    /// One writer operation, all choices in plain numbers. Unknown names are ignored.
    pub fn op(&mut self, tag: &str, a: &[u64]) {
        let g = |i: usize| a.get(i).copied().unwrap_or(0);
        self.ts = self.ts.wrapping_add(10_000);
        match tag {
            "mk" => {
                let p = self.sel(g(0));
                let n = gen_name(g(1), false);
                self.create(p, n);
            }
            "mkd" => {
                // A chain of keys: depth.
                let mut p = self.sel(g(0));
                // More than that: deeper than the format allows.
                if g(1) > 511 {
                    self.levels = 2000;
                }
                for i in 0..g(1) {
                    if self.depth(p) >= self.levels {
                        break;
                    }
                    let n = gen_name(g(2) + i, false);
                    match self.create(p, n) {
                        Some(k) => p = k,
                        None => break,
                    }
                }
            }
            "bulk" => {
                let p = self.sel(g(0));
                let mut r = Rng::new(g(2));
                // All names may begin with the same long text, in either encoding.
                let pad = g(3) / 3 % 200;
                let name = |s: String| {
                    let mut units = vec![if pad < 100 { b'p' as u16 } else { 0x440 }; (pad % 100) as usize];
                    units.extend(s.encode_utf16());
                    Name { latin1: pad <= 100, units }
                };
                if g(1) > 9000 {
                    // Too many to insert one by one.
                    let first = self.keys.len();
                    for i in 0..g(1).min(80_000) {
                        let n = name(format!("big{i}"));
                        if self.find_sub(p, &n).is_some() {
                            continue;
                        }
                        self.new_key(Some(p), n);
                    }
                    let mut subs = self.keys[p].as_ref().unwrap().subs.clone();
                    subs.extend(first..self.keys.len());
                    subs.sort_by(|&a, &b| {
                        let (a, b) = (self.keys[a].as_ref().unwrap(), self.keys[b].as_ref().unwrap());
                        a.name.cmp(&b.name)
                    });
                    self.keys[p].as_mut().unwrap().subs = subs;
                    self.write_list(p);
                    return;
                }
                for i in 0..g(1) {
                    let n = match g(3) % 3 {
                        0 => name(format!("key{i}")),
                        1 => name(format!("{:04X}{}", r.below(0x10000), if r.chance(500) { "x" } else { "_Y" })),
                        _ => gen_name(g(2) + i, false),
                    };
                    if n.units.contains(&0x5c) || self.find_sub(p, &n).is_some() {
                        continue;
                    }
                    let id = self.new_key(Some(p), n);
                    self.insert_sub(p, id);
                }
                self.write_list(p);
            }
            "rmk" => {
                let k = self.sel(g(0));
                if k != self.root {
                    let p = self.keys[k].as_ref().unwrap().parent.unwrap();
                    self.keys[p].as_mut().unwrap().subs.retain(|&s| s != k);
                    self.drop_tree(k);
                    self.write_list(p);
                }
            }
            "ren" => {
                let k = self.sel(g(0));
                let n = gen_name(g(1), false);
                let parent = self.keys[k].as_ref().unwrap().parent;
                if let Some(p) = parent {
                    if let Some(o) = self.find_sub(p, &n) {
                        if o != k {
                            return;
                        }
                    }
                    self.keys[p].as_mut().unwrap().subs.retain(|&s| s != k);
                }
                let old = self.keys[k].as_ref().unwrap().cell;
                self.free_cell(old);
                self.keys[k].as_mut().unwrap().name = n;
                let b = self.nk_bytes(k);
                let c = self.alloc(&b);
                self.keys[k].as_mut().unwrap().cell = c;
                let subs = self.keys[k].as_ref().unwrap().subs.clone();
                for s in subs {
                    self.put_nk(s);
                }
                if let Some(p) = parent {
                    self.insert_sub(p, k);
                    self.write_list(p);
                }
            }
            "setv" => {
                let k = self.sel(g(0));
                let name = gen_name(g(1), true);
                let (ty, data) = gen_data(g(2), g(3), g(4));
                let style = g(4) / 7;
                let pos = {
                    let kk = self.keys[k].as_ref().unwrap();
                    kk.values.iter().position(|v| v.v.name.cmp(&name).is_eq())
                };
                if let Some(i) = pos {
                    let old = self.keys[k].as_ref().unwrap().values[i].clone();
                    for c in &old.data_cells {
                        self.free_cell(*c);
                    }
                    let (cells, off, size) = self.store_data(&data, style);
                    let v = Value { name: old.v.name.clone(), ty, data };
                    let b = self.vk_bytes(&v, off, size);
                    let o = old.cell as usize + 4;
                    self.data[o..o + b.len()].copy_from_slice(&b);
                    self.keys[k].as_mut().unwrap().values[i] =
                        ValW { v, cell: old.cell, data_cells: cells };
                } else {
                    let (cells, off, size) = self.store_data(&data, style);
                    let v = Value { name, ty, data };
                    let b = self.vk_bytes(&v, off, size);
                    let cell = self.alloc(&b);
                    self.keys[k].as_mut().unwrap().values.push(ValW { v, cell, data_cells: cells });
                    self.write_vlist(k);
                }
            }
            "bulkv" => {
                let k = self.sel(g(0));
                let has: std::collections::BTreeSet<Vec<u16>> = self.keys[k].as_ref().unwrap().values.iter().map(|v| v.v.name.units.iter().map(|&u| upcase::up(u)).collect()).collect();
                for i in 0..g(1).min(80_000) {
                    let s = format!("v{i}");
                    let name = Name { latin1: true, units: s.encode_utf16().collect() };
                    if has.contains(&name.units.iter().map(|&u| upcase::up(u)).collect::<Vec<_>>()) {
                        continue;
                    }
                    let v = Value { name, ty: 4, data: (i as u32).to_le_bytes().to_vec() };
                    let b = self.vk_bytes(&v, i as u32, 0x8000_0004);
                    let cell = self.alloc(&b);
                    self.keys[k].as_mut().unwrap().values.push(ValW {
                        v,
                        cell,
                        data_cells: vec![],
                    });
                }
                self.write_vlist(k);
            }
            "rmv" => {
                let k = self.sel(g(0));
                let n = self.keys[k].as_ref().unwrap().values.len();
                if n > 0 {
                    let v = self.keys[k].as_mut().unwrap().values.remove((g(1) % n as u64) as usize);
                    for c in &v.data_cells {
                        self.free_cell(*c);
                    }
                    self.free_cell(v.cell);
                    self.write_vlist(k);
                }
            }
            "cls" => {
                let k = self.sel(g(0));
                let old = self.keys[k].as_ref().unwrap().class_cell;
                self.free_cell(old);
                if g(1) == 0 {
                    let kk = self.keys[k].as_mut().unwrap();
                    kk.class = None;
                    kk.class_cell = NONE;
                } else {
                    let mut r = Rng::new(g(2));
                    let u: Vec<u16> = (0..g(1) - 1)
                        .map(|_| match r.idx(3) {
                            0 => r.pick(ASCII),
                            1 => r.pick(WIDE),
                            _ => r.below(0x10000) as u16,
                        })
                        .collect();
                    let b: Vec<u8> = u.iter().flat_map(|x| x.to_le_bytes()).collect();
                    let c = self.alloc(&b);
                    let kk = self.keys[k].as_mut().unwrap();
                    kk.class = Some(u);
                    kk.class_cell = c;
                }
                self.put_nk(k);
            }
            "lay" => {
                let k = self.sel(g(0));
                let kk = self.keys[k].as_mut().unwrap();
                kk.form = g(1) % 12;
                kk.leaf = g(2);
                kk.lseed = g(3);
                self.write_list(k);
            }
            "vol" => {
                let k = self.sel(g(0));
                self.keys[k].as_mut().unwrap().volatile = g(1) as u32;
                self.put_nk(k);
            }
            "volall" => {
                let mut r = Rng::new(g(0));
                for k in self.live() {
                    self.keys[k].as_mut().unwrap().volatile = match r.idx(4) {
                        0 => 0,
                        1 => 1 + r.below(3) as u32,
                        2 => r.next() as u32,
                        _ => 0xff00,
                    };
                    self.put_nk(k);
                }
            }
            "slack" => self.slack = g(0) % 9,
            "form" => {
                self.default_form = g(0) % 12;
                self.default_leaf = g(1);
            }
            "steer" => self.steer = g(0) % 3,
            _ => {}
        }
    }

    fn create(&mut self, p: usize, n: Name) -> Option<usize> {
        if n.units.contains(&0x5c) || self.depth(p) >= self.levels {
            return None;
        }
        if let Some(k) = self.find_sub(p, &n) {
            return Some(k);
        }
        let id = self.new_key(Some(p), n);
        self.insert_sub(p, id);
        self.write_list(p);
        Some(id)
    }

    fn drop_tree(&mut self, k: usize) {
        let kw = self.keys[k].take().unwrap();
        for s in kw.subs {
            self.drop_tree(s);
        }
        for v in kw.values {
            for c in v.data_cells {
                self.free_cell(c);
            }
            self.free_cell(v.cell);
        }
        for c in kw.list_cells {
            self.free_cell(c);
        }
        self.free_cell(kw.vlist);
        self.free_cell(kw.class_cell);
        self.free_cell(kw.cell);
    }

    // ------------------------------------------------------------ views

    pub fn model(&self) -> Key {
        self.model_of(self.root)
    }
    fn model_of(&self, id: usize) -> Key {
        let k = self.keys[id].as_ref().unwrap();
        Key {
            name: k.name.clone(),
            class: k.class.clone(),
            values: k.values.iter().map(|v| v.v.clone()).collect(),
            subs: k.subs.iter().map(|&s| self.model_of(s)).collect(),
        }
    }

    /// File offsets of the volatile counts of all keys, root first.
    pub fn volatile_fields(&self) -> Vec<usize> {
        self.live().into_iter().map(|i| BB + self.keys[i].as_ref().unwrap().cell as usize + 4 + 24).collect()
    }

    /// The base block with the given sequence numbers.
    pub fn base_block(&mut self, primary: u32, secondary: u32) -> Vec<u8> {
        let mut b = vec![0u8; BB];
        b[0..4].copy_from_slice(b"regf");
        let mut p = |o: usize, v: u32| b[o..o + 4].copy_from_slice(&v.to_le_bytes());
        p(4, primary);
        p(8, secondary);
        p(20, 1);
        p(24, self.minor);
        p(28, 0);
        p(32, 1);
        p(36, self.keys[self.root].as_ref().unwrap().cell);
        p(40, self.data.len() as u32);
        p(44, 1);
        b[12..20].copy_from_slice(&self.ts.to_le_bytes());
        for (i, c) in "\\SystemRoot\\Sim".encode_utf16().enumerate() {
            b[48 + 2 * i..50 + 2 * i].copy_from_slice(&c.to_le_bytes());
        }
        if self.dress != 0 {
            // The rest of the first sector counts for the checksum, what follows does not.
            let mut r = Rng::new(self.dress);
            for x in &mut b[112..508] {
                *x = r.next() as u8;
            }
            if r.chance(500) {
                for x in &mut b[512..BB] {
                    *x = r.next() as u8;
                }
            }
            if r.chance(300) {
                for x in &mut b[48..112] {
                    *x = r.next() as u8;
                }
            }
        }
        if self.steer > 0 {
            // Choose the low timestamp dword so that the plain XOR comes out as 0 or 0xFFFFFFFF.
            let want = if self.steer == 1 { 0 } else { u32::MAX };
            let x = xor(&b) ^ u32::from_le_bytes(b[12..16].try_into().unwrap());
            b[12..16].copy_from_slice(&(x ^ want).to_le_bytes());
        }
        let c = checksum(&b);
        b[508..512].copy_from_slice(&c.to_le_bytes());
        b
    }
}

fn k_uniform(leaf: u64) -> bool {
    leaf % 2 == 0
}

pub fn xor(b: &[u8]) -> u32 {
    b[..508].chunks(4).fold(0, |x, c| x ^ u32::from_le_bytes(c.try_into().unwrap()))
}

pub fn checksum(b: &[u8]) -> u32 {
    match xor(b) {
        0 => 1,
        u32::MAX => u32::MAX - 1,
        x => x,
    }
}
