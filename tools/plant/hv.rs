//! A small builder of hive images for the demonstrations.
#![allow(dead_code)]
pub struct Hv {
    pub d: Vec<u8>,
    pub minor: u32,
    pub seq: (u32, u32),
}
pub const NONE: u32 = u32::MAX;
pub enum Data {
    Inline(Vec<u8>),
    Cell(u32, u32),
}
impl Hv {
    pub fn new() -> Hv {
        let mut d = vec![0u8; 32];
        d[..4].copy_from_slice(b"hbin");
        Hv { d, minor: 5, seq: (1, 1) }
    }
    /// A cell with this content; returns its data offset.
    pub fn cell(&mut self, c: &[u8]) -> u32 {
        let off = self.d.len() as u32;
        let size = (c.len() + 4 + 7) / 8 * 8;
        self.d.extend_from_slice(&(-(size as i32)).to_le_bytes());
        self.d.extend_from_slice(c);
        self.d.resize(off as usize + size, 0);
        off
    }
    pub fn key_raw(&mut self, name: &[u8], flags: u16, subs: (u32, u32), vals: (u32, u32), class: (u16, u32), vol: u32) -> u32 {
        let mut c = vec![0u8; 76];
        c[0..2].copy_from_slice(b"nk");
        c[2..4].copy_from_slice(&flags.to_le_bytes());
        c[20..24].copy_from_slice(&subs.0.to_le_bytes());
        c[24..28].copy_from_slice(&vol.to_le_bytes());
        c[28..32].copy_from_slice(&subs.1.to_le_bytes());
        c[32..36].copy_from_slice(&NONE.to_le_bytes());
        c[36..40].copy_from_slice(&vals.0.to_le_bytes());
        c[40..44].copy_from_slice(&vals.1.to_le_bytes());
        c[44..48].copy_from_slice(&NONE.to_le_bytes());
        c[48..52].copy_from_slice(&class.1.to_le_bytes());
        c[72..74].copy_from_slice(&(name.len() as u16).to_le_bytes());
        c[74..76].copy_from_slice(&class.0.to_le_bytes());
        c.extend_from_slice(name);
        self.cell(&c)
    }
    pub fn key(&mut self, name: &str, subs: (u32, u32), vals: (u32, u32)) -> u32 {
        self.key_raw(name.as_bytes(), 0x20, subs, vals, (0, NONE), 0)
    }
    pub fn leaf_key(&mut self, name: &str) -> u32 {
        self.key(name, (0, NONE), (0, NONE))
    }
    /// kind: b"lf", b"lh", b"li", b"ri"
    pub fn list(&mut self, kind: &[u8; 2], items: &[u32]) -> u32 {
        let mut c = kind.to_vec();
        c.extend_from_slice(&(items.len() as u16).to_le_bytes());
        for i in items {
            c.extend_from_slice(&i.to_le_bytes());
            if kind == b"lf" || kind == b"lh" {
                c.extend_from_slice(&[0; 4]);
            }
        }
        self.cell(&c)
    }
    pub fn vlist(&mut self, items: &[u32]) -> u32 {
        let c: Vec<u8> = items.iter().flat_map(|i| i.to_le_bytes()).collect();
        self.cell(&c)
    }
    pub fn value(&mut self, name: &str, ty: u32, data: Data) -> u32 {
        let mut c = vec![0u8; 20];
        c[0..2].copy_from_slice(b"vk");
        c[2..4].copy_from_slice(&(name.len() as u16).to_le_bytes());
        match data {
            Data::Inline(d) => {
                c[4..8].copy_from_slice(&(d.len() as u32 | 0x8000_0000).to_le_bytes());
                c[8..8 + d.len()].copy_from_slice(&d);
            }
            Data::Cell(size, off) => {
                c[4..8].copy_from_slice(&size.to_le_bytes());
                c[8..12].copy_from_slice(&off.to_le_bytes());
            }
        }
        c[12..16].copy_from_slice(&ty.to_le_bytes());
        c[16..18].copy_from_slice(&1u16.to_le_bytes());
        c.extend_from_slice(name.as_bytes());
        self.cell(&c)
    }
    /// Data in one cell.
    pub fn small(&mut self, d: &[u8]) -> Data {
        let off = self.cell(d);
        Data::Cell(d.len() as u32, off)
    }
    pub fn big(&mut self, d: &[u8]) -> Data {
        let segs: Vec<u32> = d.chunks(16344).map(|c| self.cell(c)).collect();
        let list = self.vlist(&segs);
        let mut c = b"db".to_vec();
        c.extend_from_slice(&(segs.len() as u16).to_le_bytes());
        c.extend_from_slice(&list.to_le_bytes());
        let off = self.cell(&c);
        Data::Cell(d.len() as u32, off)
    }
    /// The complete file.
    pub fn image(&self, root: u32) -> Vec<u8> {
        let mut f = vec![0u8; 4096];
        f.extend_from_slice(&self.d);
        f.resize((f.len() + 4095) / 4096 * 4096, 0);
        let size = f.len() as u32 - 4096;
        let mut put = |o: usize, v: u32| f[o..o + 4].copy_from_slice(&v.to_le_bytes());
        put(0, u32::from_le_bytes(*b"regf"));
        put(4, self.seq.0);
        put(8, self.seq.1);
        put(20, 1);
        put(24, self.minor);
        put(32, 1);
        put(36, root);
        put(40, size);
        put(44, 1);
        sum(&mut f);
        f
    }
}
pub fn sum(f: &mut [u8]) {
    let mut s = f[..508].chunks(4).fold(0u32, |a, c| a ^ u32::from_le_bytes(c.try_into().unwrap()));
    if s == 0 {
        s = 1;
    } else if s == NONE {
        s = NONE - 1;
    }
    f[508..512].copy_from_slice(&s.to_le_bytes());
}
pub fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}
