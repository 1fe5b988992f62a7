//! A big-endian MIPS processor (32 or 64 bits, release 2, integers only) with some memory and a place
//! to say things. Every unaligned access and every unknown instruction stops it.

const SAY: u64 = 0x7000_0000;
const MEM: usize = 768 << 20;
const STACK: usize = 4 << 20;

type Res<T> = Result<T, Box<Stop>>;

pub enum Stop {
    /// It said it is done.
    Done,
    /// A trap: what and where.
    Trap(String),
    /// This simulator's own limits.
    Harness(String),
    Steps,
}

pub struct Mips {
    r: [u64; 32],
    hi: u64,
    lo: u64,
    pc: u64,
    npc: u64,
    mem: Zeroed,
    wide: bool,
    say_at: u64,
    pub steps: u64,
    entry: u64,
    top: usize,
    elf: Vec<u8>,
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
}

/// Memory that costs nothing until it is used.
struct Zeroed(*mut u8);
impl Zeroed {
    fn new() -> Zeroed {
        // private, anonymous, no swap reserved
        let p = unsafe { mmap(std::ptr::null_mut(), MEM, 3, 0x2 | 0x20 | 0x4000, -1, 0) };
        assert!(p as isize != -1, "no memory for the machine");
        Zeroed(p)
    }
    fn b(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.0, MEM) }
    }
}
impl Drop for Zeroed {
    fn drop(&mut self) {
        unsafe { munmap(self.0, MEM) };
    }
}

#[cold]
fn trapped(s: String) -> Box<Stop> {
    Box::new(Stop::Trap(s))
}
#[cold]
fn odd(s: String) -> Box<Stop> {
    Box::new(Stop::Harness(s))
}

fn be(b: &[u8], at: usize, n: usize) -> u64 {
    b[at..at + n].iter().fold(0, |a, x| a << 8 | *x as u64)
}

fn sx(x: u64) -> u64 {
    x as u32 as i32 as i64 as u64
}

impl Mips {
    pub fn new(elf: &[u8]) -> Result<Mips, String> {
        if elf.len() < 64 || elf[..4] != *b"\x7fELF" || elf[5] != 2 {
            return Err("not a big-endian ELF file".into());
        }
        let wide = elf[4] == 2;
        let mut m = Mips {
            r: [0; 32],
            hi: 0,
            lo: 0,
            pc: 0,
            npc: 0,
            mem: Zeroed::new(),
            wide,
            say_at: 0,
            steps: 0,
            entry: 0,
            top: 0,
            elf: elf.to_vec(),
        };
        m.load();
        Ok(m)
    }

    fn load(&mut self) {
        let e = &self.elf;
        let mem = self.mem.b();
        let (phoff, phsize, phnum);
        if self.wide {
            self.entry = be(e, 24, 8);
            (phoff, phsize, phnum) = (be(e, 32, 8), be(e, 54, 2), be(e, 56, 2));
        } else {
            self.entry = be(e, 24, 4);
            (phoff, phsize, phnum) = (be(e, 28, 4), be(e, 42, 2), be(e, 44, 2));
        }
        for i in 0..phnum {
            let p = (phoff + i * phsize) as usize;
            if be(e, p, 4) != 1 {
                continue;
            }
            let (off, at, fsz, msz) = if self.wide {
                (be(e, p + 8, 8), be(e, p + 16, 8), be(e, p + 32, 8), be(e, p + 40, 8))
            } else {
                (be(e, p + 4, 4), be(e, p + 8, 4), be(e, p + 16, 4), be(e, p + 20, 4))
            };
            let (off, at, fsz, msz) = (off as usize, at as usize, fsz as usize, msz as usize);
            mem[at..at + fsz].copy_from_slice(&e[off..off + fsz]);
            mem[at + fsz..at + msz].fill(0);
            self.top = self.top.max(at + msz);
        }
    }

    /// Starts the program on cases, from number `first` on.
    pub fn start(&mut self, cases: &[u8], first: usize, verbose: bool) {
        self.load();
        let at = (self.top + 4095) & !4095;
        let heap = (at + cases.len() + 4095) & !4095;
        let end = MEM - STACK;
        let w = if self.wide { 8 } else { 4 };
        let args = [at, cases.len(), first, verbose as usize, heap, end];
        let b = self.mem.b();
        b[at..at + cases.len()].copy_from_slice(cases);
        let s = MEM - 4096;
        for (i, a) in args.iter().enumerate() {
            b[s + i * w..s + i * w + w].copy_from_slice(&(*a as u64).to_be_bytes()[8 - w..]);
        }
        self.r = [0; 32];
        self.r[4] = s as u64;
        self.r[25] = self.entry;
        self.r[29] = (MEM - 8192) as u64;
        self.r[31] = 0;
        self.pc = self.entry;
        self.npc = self.entry + 4;
    }

    #[inline]
    fn at(&self, a: u64, n: usize) -> Res<usize> {
        let a = if self.wide { a } else { a as u32 as u64 };
        if a & (n as u64 - 1) != 0 {
            return Err(trapped(format!("unaligned access to {a:#x}")));
        }
        // The first page is nobody's.
        if a < 4096 || a >= (MEM - n + 1) as u64 {
            return Err(trapped(format!("access to {a:#x}")));
        }
        Ok(a as usize)
    }
    #[inline]
    fn ld<const N: usize>(&mut self, a: u64) -> Res<u64> {
        let i = self.at(a, N)?;
        let p = unsafe { self.mem.0.add(i) };
        Ok(unsafe {
            match N {
                1 => *p as u64,
                2 => u16::from_be_bytes(*(p as *const [u8; 2])) as u64,
                4 => u32::from_be_bytes(*(p as *const [u8; 4])) as u64,
                _ => u64::from_be_bytes(*(p as *const [u8; 8])),
            }
        })
    }
    #[inline]
    fn st<const N: usize>(&mut self, a: u64, v: u64, say: &mut dyn FnMut(&str)) -> Res<()> {
        let a = if self.wide { a } else { a as u32 as u64 };
        if a & !15 == SAY {
            return self.told(a, v, say);
        }
        let i = self.at(a, N)?;
        let p = unsafe { self.mem.0.add(i) };
        unsafe {
            match N {
                1 => *p = v as u8,
                2 => *(p as *mut [u8; 2]) = (v as u16).to_be_bytes(),
                4 => *(p as *mut [u8; 4]) = (v as u32).to_be_bytes(),
                _ => *(p as *mut [u8; 8]) = v.to_be_bytes(),
            }
        }
        Ok(())
    }
    #[cold]
    fn told(&mut self, a: u64, v: u64, say: &mut dyn FnMut(&str)) -> Res<()> {
        let v = if self.wide { v } else { v as u32 as u64 };
        if a & 15 == 0 {
            self.say_at = v;
            return Ok(());
        }
        let (s, n) = (self.say_at as usize, v as usize);
        if s.checked_add(n).is_none_or(|e| e > MEM) {
            return Err(odd("says what is not in memory".into()));
        }
        let t = String::from_utf8_lossy(&self.mem.b()[s..s + n]).into_owned();
        if t == "*" {
            return Err(Box::new(Stop::Done));
        }
        say(&t);
        Ok(())
    }

    /// Runs until it stops, for at most `limit` instructions between two things said.
    pub fn run(&mut self, limit: u64, say: &mut dyn FnMut(&str)) -> Stop {
        let until = std::cell::Cell::new(self.steps + limit);
        let n = std::cell::Cell::new(self.steps);
        let mut say2 = |s: &str| {
            until.set(n.get() + limit);
            say(s)
        };
        loop {
            for _ in 0..4096 {
                if let Err(s) = self.one(&mut say2) {
                    return match *s {
                        Stop::Trap(t) => Stop::Trap(format!("{t} at {:#x}", self.pc)),
                        Stop::Harness(t) => Stop::Harness(format!("{t} at {:#x}", self.pc)),
                        s => s,
                    };
                }
            }
            self.steps += 4096;
            n.set(self.steps);
            if (self.r[29] as u32 as usize) < MEM - STACK {
                return Stop::Trap("stack overflow".into());
            }
            if self.steps > until.get() {
                return Stop::Steps;
            }
        }
    }

    #[inline]
    fn one(&mut self, say: &mut dyn FnMut(&str)) -> Res<()> {
        let pc = self.pc;
        let i = self.ld::<4>(pc)? as u32;
        let mut next = self.npc.wrapping_add(4);
        let op = i >> 26;
        let (rs, rt, rd) = ((i >> 21 & 31) as usize, (i >> 16 & 31) as usize, (i >> 11 & 31) as usize);
        let sa = i >> 6 & 31;
        let imm = i as u16 as i16 as i64 as u64;
        let (s, t) = (self.r[rs], self.r[rt]);
        let branch = self.npc.wrapping_add(imm << 2);
        let trap = |w: &str| Err(trapped(w.into()));
        let mut skip = false;
        // What is written, and where. Register 0 is put right afterwards.
        let (mut to, mut v) = (0usize, 0u64);
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                to = $d;
                v = $v;
            }};
        }
        match op {
            0 => match i & 63 {
                0 => set!(rd, sx(t << sa)),
                2 if rs == 1 => set!(rd, sx((t as u32).rotate_right(sa) as u64)),
                2 => set!(rd, sx((t as u32 >> sa) as u64)),
                3 => set!(rd, ((t as i32) >> sa) as i64 as u64),
                4 => set!(rd, sx((t as u32).wrapping_shl(s as u32 & 31) as u64)),
                6 if sa == 1 => set!(rd, sx((t as u32).rotate_right(s as u32 & 31) as u64)),
                6 => set!(rd, sx((t as u32 >> (s as u32 & 31)) as u64)),
                7 => set!(rd, ((t as i32) >> (s as u32 & 31)) as i64 as u64),
                8 => next = s,
                9 => {
                    next = s;
                    set!(rd, self.npc.wrapping_add(4))
                }
                10 => {
                    if t == 0 {
                        set!(rd, s)
                    }
                }
                11 => {
                    if t != 0 {
                        set!(rd, s)
                    }
                }
                12 => return trap("system call"),
                13 => return trap("break"),
                15 => {}
                16 => set!(rd, self.hi),
                17 => self.hi = s,
                18 => set!(rd, self.lo),
                19 => self.lo = s,
                20 => set!(rd, t << (s & 63)),
                22 if sa == 1 => set!(rd, t.rotate_right(s as u32 & 63)),
                22 => set!(rd, t >> (s & 63)),
                23 => set!(rd, ((t as i64) >> (s & 63)) as u64),
                24 => {
                    let p = (s as i32 as i64).wrapping_mul(t as i32 as i64) as u64;
                    self.lo = sx(p);
                    self.hi = sx(p >> 32);
                }
                25 => {
                    let p = (s as u32 as u64).wrapping_mul(t as u32 as u64);
                    self.lo = sx(p);
                    self.hi = sx(p >> 32);
                }
                26 => {
                    if t as i32 != 0 {
                        self.lo = (s as i32).wrapping_div(t as i32) as i64 as u64;
                        self.hi = (s as i32).wrapping_rem(t as i32) as i64 as u64;
                    }
                }
                27 => {
                    if t as u32 != 0 {
                        self.lo = sx((s as u32 / t as u32) as u64);
                        self.hi = sx((s as u32 % t as u32) as u64);
                    }
                }
                28 => {
                    let p = (s as i64 as i128).wrapping_mul(t as i64 as i128) as u128;
                    self.lo = p as u64;
                    self.hi = (p >> 64) as u64;
                }
                29 => {
                    let p = (s as u128).wrapping_mul(t as u128);
                    self.lo = p as u64;
                    self.hi = (p >> 64) as u64;
                }
                30 => {
                    if t != 0 {
                        self.lo = (s as i64).wrapping_div(t as i64) as u64;
                        self.hi = (s as i64).wrapping_rem(t as i64) as u64;
                    }
                }
                31 => {
                    if t != 0 {
                        self.lo = s / t;
                        self.hi = s % t;
                    }
                }
                32 => match (s as i32).checked_add(t as i32) {
                    Some(x) => set!(rd, x as i64 as u64),
                    None => return trap("overflow"),
                },
                33 => set!(rd, sx(s.wrapping_add(t))),
                34 => match (s as i32).checked_sub(t as i32) {
                    Some(x) => set!(rd, x as i64 as u64),
                    None => return trap("overflow"),
                },
                35 => set!(rd, sx(s.wrapping_sub(t))),
                36 => set!(rd, s & t),
                37 => set!(rd, s | t),
                38 => set!(rd, s ^ t),
                39 => set!(rd, !(s | t)),
                42 => set!(rd, ((s as i64) < t as i64) as u64),
                43 => set!(rd, (s < t) as u64),
                44 => match (s as i64).checked_add(t as i64) {
                    Some(x) => set!(rd, x as u64),
                    None => return trap("overflow"),
                },
                45 => set!(rd, s.wrapping_add(t)),
                46 => match (s as i64).checked_sub(t as i64) {
                    Some(x) => set!(rd, x as u64),
                    None => return trap("overflow"),
                },
                47 => set!(rd, s.wrapping_sub(t)),
                48 if s as i64 >= t as i64 => return trap("trap"),
                49 if s >= t => return trap("trap"),
                50 if (s as i64) < t as i64 => return trap("trap"),
                51 if s < t => return trap("trap"),
                52 if s == t => return trap("trap"),
                54 if s != t => return trap("trap"),
                48..=52 | 54 => {}
                56 => set!(rd, t << sa),
                58 if rs == 1 => set!(rd, t.rotate_right(sa)),
                58 => set!(rd, t >> sa),
                59 => set!(rd, ((t as i64) >> sa) as u64),
                60 => set!(rd, t << (sa + 32)),
                62 if rs == 1 => set!(rd, t.rotate_right(sa + 32)),
                62 => set!(rd, t >> (sa + 32)),
                63 => set!(rd, ((t as i64) >> (sa + 32)) as u64),
                _ => return Err(odd(format!("unknown instruction {i:08x}"))),
            },
            1 => {
                let neg = (s as i64) < 0;
                match rt {
                    0 | 2 | 16 | 18 | 1 | 3 | 17 | 19 => {
                        let take = if rt & 1 == 0 { neg } else { !neg };
                        if rt & 16 != 0 {
                            set!(31, self.npc.wrapping_add(4));
                        }
                        if take {
                            next = branch;
                        } else {
                            skip = rt & 2 != 0;
                        }
                    }
                    8 if s as i64 >= imm as i64 => return trap("trap"),
                    9 if s >= imm => return trap("trap"),
                    10 if (s as i64) < imm as i64 => return trap("trap"),
                    11 if s < imm => return trap("trap"),
                    12 if s == imm => return trap("trap"),
                    14 if s != imm => return trap("trap"),
                    8..=12 | 14 => {}
                    _ => return Err(odd(format!("unknown instruction {i:08x}"))),
                }
            }
            2 | 3 => {
                next = self.npc & !0x0fff_ffff | ((i & 0x03ff_ffff) << 2) as u64;
                if op == 3 {
                    set!(31, self.npc.wrapping_add(4));
                }
            }
            4 | 20 => {
                if s == t {
                    next = branch
                } else {
                    skip = op == 20
                }
            }
            5 | 21 => {
                if s != t {
                    next = branch
                } else {
                    skip = op == 21
                }
            }
            6 | 22 => {
                if s as i64 <= 0 {
                    next = branch
                } else {
                    skip = op == 22
                }
            }
            7 | 23 => {
                if s as i64 > 0 {
                    next = branch
                } else {
                    skip = op == 23
                }
            }
            8 => match (s as i32).checked_add(imm as i32) {
                Some(x) => set!(rt, x as i64 as u64),
                None => return trap("overflow"),
            },
            9 => set!(rt, sx(s.wrapping_add(imm))),
            10 => set!(rt, ((s as i64) < imm as i64) as u64),
            11 => set!(rt, (s < imm) as u64),
            12 => set!(rt, s & (i & 0xffff) as u64),
            13 => set!(rt, s | (i & 0xffff) as u64),
            14 => set!(rt, s ^ (i & 0xffff) as u64),
            15 => set!(rt, sx((i << 16) as u64)),
            24 => match (s as i64).checked_add(imm as i64) {
                Some(x) => set!(rt, x as u64),
                None => return trap("overflow"),
            },
            25 => set!(rt, s.wrapping_add(imm)),
            28 => {
                let acc = (self.hi << 32) | (self.lo as u32 as u64);
                let sp = (s as i32 as i64).wrapping_mul(t as i32 as i64) as u64;
                let up = (s as u32 as u64).wrapping_mul(t as u32 as u64);
                let mut put = |x: u64| {
                    self.lo = sx(x);
                    self.hi = sx(x >> 32);
                };
                match i & 63 {
                    0 => put(acc.wrapping_add(sp)),
                    1 => put(acc.wrapping_add(up)),
                    2 => set!(rd, sx(sp)),
                    4 => put(acc.wrapping_sub(sp)),
                    5 => put(acc.wrapping_sub(up)),
                    32 => set!(rd, (s as u32).leading_zeros() as u64),
                    33 => set!(rd, (s as u32).leading_ones() as u64),
                    36 => set!(rd, s.leading_zeros() as u64),
                    37 => set!(rd, s.leading_ones() as u64),
                    _ => return Err(odd(format!("unknown instruction {i:08x}"))),
                }
            }
            31 => {
                let f = i & 63;
                let (lsb, msb) = (sa, i >> 11 & 31);
                let mask = |n: u32| if n >= 64 { u64::MAX } else { (1u64 << n) - 1 };
                match f {
                    0 => set!(rt, sx(s >> lsb & mask(msb + 1))),
                    1 => set!(rt, s >> lsb & mask(msb + 33)),
                    2 => set!(rt, s >> (lsb + 32) & mask(msb + 1)),
                    3 => set!(rt, s >> lsb & mask(msb + 1)),
                    4..=7 => {
                        let (pos, end) = match f {
                            4 | 7 => (lsb, msb + 1),
                            5 => (lsb, msb + 33),
                            _ => (lsb + 32, msb + 33),
                        };
                        if end <= pos {
                            return Err(odd(format!("odd instruction {i:08x}")));
                        }
                        let m = mask(end - pos) << pos;
                        let x = t & !m | s << pos & m;
                        set!(rt, if f == 4 { sx(x) } else { x })
                    }
                    32 => match sa {
                        2 => set!(rd, sx((((t as u32) & 0x00ff_00ff) << 8 | ((t as u32) >> 8 & 0x00ff_00ff)) as u64)),
                        16 => set!(rd, t as i8 as i64 as u64),
                        24 => set!(rd, t as i16 as i64 as u64),
                        _ => return Err(odd(format!("unknown instruction {i:08x}"))),
                    },
                    36 => match sa {
                        2 => set!(rd, (t & 0x00ff_00ff_00ff_00ff) << 8 | (t >> 8 & 0x00ff_00ff_00ff_00ff)),
                        5 => set!(rd, (t & 0xffff) << 48 | (t & 0xffff_0000) << 16 | (t >> 16 & 0xffff_0000) | t >> 48),
                        _ => return Err(odd(format!("unknown instruction {i:08x}"))),
                    },
                    _ => return Err(odd(format!("unknown instruction {i:08x}"))),
                }
            }
            26 | 27 | 34 | 38 | 42 | 44 | 45 | 46 => {
                // Parts of an unaligned word, byte by byte.
                let a = s.wrapping_add(imm);
                let w: u64 = if matches!(op, 34 | 38 | 42 | 46) { 4 } else { 8 };
                let k = a & (w - 1);
                let base = a - k;
                let left = matches!(op, 26 | 34 | 42 | 44);
                if matches!(op, 42 | 44 | 45 | 46) {
                    for j in 0..w {
                        // Byte j of the register, from the top.
                        let b = t >> (8 * (w - 1 - j)) & 0xff;
                        if left && k + j < w {
                            self.st::<1>(base + k + j, b, say)?;
                        }
                        if !left && j + k >= w - 1 {
                            self.st::<1>(base + (j + k - (w - 1)), b, say)?;
                        }
                    }
                } else {
                    let mut x = t;
                    for j in 0..w {
                        let from = if left {
                            if k + j >= w {
                                continue;
                            }
                            base + k + j
                        } else {
                            if j + k < w - 1 {
                                continue;
                            }
                            base + (j + k - (w - 1))
                        };
                        let b = self.ld::<1>(from)?;
                        let sh = 8 * (w - 1 - j);
                        x = x & !(0xff << sh) | b << sh;
                    }
                    set!(rt, if w == 4 { sx(x) } else { x })
                }
            }
            32 => set!(rt, self.ld::<1>(s.wrapping_add(imm))? as i8 as i64 as u64),
            33 => set!(rt, self.ld::<2>(s.wrapping_add(imm))? as i16 as i64 as u64),
            35 => set!(rt, sx(self.ld::<4>(s.wrapping_add(imm))?)),
            36 => set!(rt, self.ld::<1>(s.wrapping_add(imm))?),
            37 => set!(rt, self.ld::<2>(s.wrapping_add(imm))?),
            39 => set!(rt, self.ld::<4>(s.wrapping_add(imm))?),
            40 => self.st::<1>(s.wrapping_add(imm), t, say)?,
            41 => self.st::<2>(s.wrapping_add(imm), t, say)?,
            43 => self.st::<4>(s.wrapping_add(imm), t, say)?,
            47 | 51 => {}
            48 => {
                set!(rt, sx(self.ld::<4>(s.wrapping_add(imm))?))
            }
            52 => {
                set!(rt, self.ld::<8>(s.wrapping_add(imm))?)
            }
            55 => set!(rt, self.ld::<8>(s.wrapping_add(imm))?),
            56 => {
                self.st::<4>(s.wrapping_add(imm), t, say)?;
                set!(rt, 1)
            }
            60 => {
                self.st::<8>(s.wrapping_add(imm), t, say)?;
                set!(rt, 1)
            }
            63 => self.st::<8>(s.wrapping_add(imm), t, say)?,
            _ => return Err(odd(format!("unknown instruction {i:08x}"))),
        }
        if !self.wide && (op >= 20 && matches!(op, 24 | 25 | 26 | 27 | 39 | 44 | 45 | 52 | 55 | 60 | 63)) {
            return Err(odd(format!("instruction {i:08x} of a wider machine")));
        }
        self.r[to] = v;
        self.r[0] = 0;
        if skip {
            self.pc = self.npc.wrapping_add(4);
            self.npc = self.pc.wrapping_add(4);
        } else {
            self.pc = self.npc;
            self.npc = next;
        }
        Ok(())
    }
}
