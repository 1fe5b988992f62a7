//! Generates scenarios from seeds.
use crate::scen::Scen;
use simcore::rng::{hash_bytes, mix, Rng};

pub const SEG: u64 = 16344;

pub fn seed_of(master: u64, prop: &str, k: u64) -> u64 {
    mix(hash_bytes(prop.as_bytes(), mix(master ^ 0x5eed)) ^ k.wrapping_mul(0x9e37_79b9_7f4a_7c15))
}

fn name_seed(r: &mut Rng) -> u64 {
    if r.chance(400) {
        r.below(104)
    } else {
        104 + r.below(3000)
    }
}

/// A name of that many characters at most (keys have room for 255, values for 16,383).
fn long_name(r: &mut Rng) -> u64 {
    (r.pick(&[200, 255, 256, 1000, 4000, 16_383]) << 32) | (104 + r.below(4))
}

fn data_len(r: &mut Rng, big: u64) -> u64 {
    if r.chance(big) {
        match r.idx(4) {
            0 => SEG - 2 + r.below(6),
            1 => 2 * SEG - 2 + r.below(6),
            2 => SEG + 1 + r.below(SEG),
            _ => SEG + r.below(4 * SEG),
        }
    } else {
        match r.idx(6) {
            0 => 0,
            1 | 2 => r.below(13),
            3 | 4 => r.below(120),
            _ => r.below(1500),
        }
    }
}

#[derive(Clone, Copy)]
struct Tree {
    ops: u64,
    big: u64,
    bulk: u64,
    deep: u64,
    values: u64,
    vol: u64,
}

const SMALL: Tree = Tree { ops: 14, big: 60, bulk: 30, deep: 20, values: 300, vol: 30 };

fn config(sc: &mut Scen, r: &mut Rng) {
    let minor = match r.weighted(&[15, 12, 50, 12, 4, 4]) {
        0 => 3,
        1 => 4,
        2 => 5,
        3 => 6,
        4 => 7 + r.below(3),
        _ => r.next() as u32 as u64 | 4,
    };
    sc.set("minor", minor);
    sc.set("root", if r.chance(300) { 0 } else { 1 + r.below(5000) });
    sc.set("slack", r.pick(&[0, 0, 0, 1, 3, 8]));
    sc.set("align", r.below(16));
    sc.set("seq", r.pick(&[1, 0, 7, 0xff, 0xfffe, 0xffff_ffff, 0xffff_fffe, 0x00ff_ffff]));
    if r.chance(150) {
        sc.set("steer", 1 + r.below(2));
    }
    if r.chance(400) {
        sc.set("dress", 1 + r.next() % 100_000);
    }
    if r.chance(700) {
        sc.s("form", &[r.below(12), r.pick(&[1, 2, 3, 4, 7, 512])]);
    }
}

fn op(sc: &mut Scen, r: &mut Rng, t: Tree) {
    // Weights in the order of the arms below.
    let w = [300, t.values, t.bulk, 110, 40, 40, 40, 40, t.vol, t.deep, 20, 15];
    match r.weighted(&w) {
        0 => sc.s("mk", &[r.next() % 1000, name_seed(r)]),
        1 => sc.s("setv", &[r.next() % 1000, name_seed(r), r.below(10), data_len(r, t.big), r.next() % 100_000]),
        2 => sc.s("bulk", &[r.next() % 1000, r.pick(&[5, 12, 30, 60]), 200 + r.below(1000), bulk_names(r)]),
        3 => sc.s("lay", &[r.next() % 1000, r.below(12), 1 + r.below(7), r.next() % 1000]),
        4 => {
            let len = if r.chance(30) { r.pick(&[257, 1500, 20_000, 32_768]) } else { r.below(9) };
            sc.s("cls", &[r.next() % 1000, len, r.next() % 1000])
        }
        5 => sc.s("ren", &[r.next() % 1000, name_seed(r)]),
        6 => sc.s("rmk", &[r.next() % 1000]),
        7 => sc.s("rmv", &[r.next() % 1000, r.next() % 1000]),
        8 => sc.s("vol", &[r.next() % 1000, r.next() as u32 as u64]),
        9 => sc.s("mkd", &[r.next() % 1000, 2 + r.below(8), name_seed(r)]),
        10 => sc.s("bulkv", &[r.next() % 1000, 3 + r.below(30)]),
        _ => sc.s("slack", &[r.below(9)]),
    }
}

fn tree(sc: &mut Scen, r: &mut Rng, t: Tree) {
    let n = t.ops / 2 + r.below(t.ops);
    // A first key or two, so that there is something to work on.
    sc.s("mk", &[0, name_seed(r)]);
    for _ in 0..n {
        op(sc, r, t);
    }
}

/// Rarely, once in `odds`: a hive in which counts or offsets outgrow the narrower integer types.
/// Kind of names, and sometimes a text with which all of them begin.
fn bulk_names(r: &mut Rng) -> u64 {
    r.below(3) + if r.chance(150) { 3 * r.below(200) } else { 0 }
}

fn giant(sc: &mut Scen, r: &mut Rng, odds: u64) {
    if r.below(odds) != 0 {
        return;
    }
    match r.weighted(&[30, 30, 30, 10]) {
        0 => {
            let width = r.pick(&[1, 1, 2, 512, 1013, 30_000, 60_000]);
            // an index root with more lists than an i16 counts, in some
            let form = if width < 3 { r.pick(&[3, 4, 5, 9, 10, 11]) } else { r.below(12) };
            sc.s("lay", &[0, form, width, r.next() % 1000]);
            let n = match r.idx(3) {
                0 => 32_766 + r.below(33_000),
                1 => 65_530 + r.below(6),
                _ => 65_536 + r.below(4000),
            };
            let pad = if r.chance(300) { r.below(200) } else { 0 };
            sc.s("bulk", &[0, n, 0, 3 * pad]);
        }
        1 => sc.s("bulkv", &[0, 65_530 + r.below(4000)]),
        2 => sc.s("setv", &[0, name_seed(r), r.pick(&[0, 3, 4, 6]), 255 * SEG + r.below(3 * SEG), r.next() % 100_000]),
        _ => {
            sc.s("setv", &[0, name_seed(r), 0, (1 << 24) + r.below(SEG), r.next() % 100_000]);
            for _ in 0..6 {
                op(sc, r, SMALL);
            }
        }
    }
}

/// Tree, committed; sometimes changed and committed again (so that older sectors exist).
fn committed(sc: &mut Scen, r: &mut Rng, t: Tree) {
    config(sc, r);
    tree(sc, r, t);
    sc.s("flush", &[9, 0]);
    if r.chance(350) {
        for _ in 0..1 + r.below(6) {
            op(sc, r, t);
        }
        sc.s("flush", &[9, 0]);
    }
}

fn how(r: &mut Rng) -> (u64, u64) {
    let h = r.below(17);
    let a = match r.idx(4) {
        0 => r.below(8),
        1 => r.next() as u32 as u64,
        _ => r.next() % 100_000,
    };
    (h, a)
}

fn fault(sc: &mut Scen, r: &mut Rng) {
    match r.weighted(&[380, 220, 130, 120, 80, 40, 15, 10]) {
        0 => {
            let (h, a) = how(r);
            sc.s("fld", &[r.below(100), r.next() % 10_000, h, a])
        }
        1 => {
            let (h, a) = how(r);
            sc.s("kfld", &[2 + r.below(23), r.next() % 10_000, h, a])
        }
        2 => sc.s("flip", &[r.next() % 1_000_000, r.below(8)]),
        3 => sc.s("sec", &[r.below(5), r.next() % 1000, r.next() % 1000]),
        4 => sc.s("garb", &[r.next() % 1_000_000, r.below(80), r.next() % 1000]),
        5 => sc.s("trunc", &[r.below(4), r.next() % 1_000_000]),
        6 => sc.s("ext", &[r.below(9000), r.below(1000)]),
        _ => sc.s("alias", &[r.next() % 10_000, r.next() % 10_000, r.below(4)]),
    }
}

fn faults(sc: &mut Scen, r: &mut Rng, max: u64) {
    for _ in 0..1 + r.below(max) {
        fault(sc, r);
    }
    if r.chance(300) {
        sc.s("sum", &[]);
    }
}

const CODES: &[(u64, u64)] = &[
    (0, 6),
    (1, 6),
    (2, 5),
    (3, 14),
    (4, 6),
    (5, 10),
    (6, 14),
    (7, 14),
    (8, 3),
    (9, 2),
    (10, 2),
    (11, 3),
    (12, 4),
    (13, 3),
    (14, 3),
    (15, 2),
    (20, 5),
    (21, 4),
    (22, 3),
    (23, 8),
    (24, 5),
    (25, 6),
    (26, 6),
    (27, 4),
    (28, 4),
    (29, 2),
    (30, 1),
    (31, 1),
    (32, 2),
    (33, 3),
    (40, 36),
    (41, 12),
    (42, 3),
    (43, 3),
    (44, 3),
    (45, 4),
    (46, 4),
    (47, 3),
    (48, 4),
    (50, 2),
    (51, 1),
    (52, 1),
];

fn read_args(r: &mut Rng, only: Option<&[u64]>) -> [u64; 5] {
    let code = match only {
        Some(l) => r.pick(l),
        None => {
            let w: Vec<u64> = CODES.iter().map(|c| c.1).collect();
            CODES[r.weighted(&w)].0
        }
    };
    [code, r.next() % 10_000, r.next() % 10_000, r.next() % 10_000, r.next() % 1_000_000]
}

fn reads(sc: &mut Scen, r: &mut Rng, n: u64, only: Option<&[u64]>) {
    for _ in 0..n {
        let a = read_args(r, only);
        sc.s("r", &a);
    }
}

/// Fields that make a name what it is.
const NAMES: &[u64] = &[4, 4, 9, 10, 10, 11, 11, 12, 12, 20, 20];
const NAV: &[u64] = &[6, 7, 40, 40, 40, 3];

pub fn gen(prop: &str, master: u64, k: u64) -> Scen {
    let seed = seed_of(master, prop, k);
    let mut rr = Rng::new(seed);
    let r = &mut rr;
    let mut sc = Scen::new(prop);
    sc.set("seed", seed);
    let s = &mut sc;
    match prop {
        "C01" => {
            committed(s, r, SMALL);
            if r.below(4000) == 0 {
                giant(s, r, 1);
                s.s("flush", &[9, 0]);
            }
            faults(s, r, 6);
            s.s("boot", &[r.pick(&[0, 1, 1, 2])]);
            if r.chance(400) {
                s.s("walk", &[63, r.next() % 1000, 60]);
            }
            s.s("r", &[0]);
            let n = 20 + r.below(50);
            reads(s, r, n, None);
            if r.chance(500) {
                for _ in 0..1 + r.below(3) {
                    let d = match r.idx(3) {
                        0 => vec![0, r.next() % 1_000_000, r.below(8)],
                        1 => {
                            let (h, a) = how(r);
                            vec![1, r.below(100), r.next() % 10_000, h, a]
                        }
                        _ => vec![4, r.next() % 1_000_000, r.below(60), r.next() % 1000],
                    };
                    s.s("d", &d);
                    let n = 8 + r.below(24);
                    reads(s, r, n, None);
                }
            }
            if r.chance(300) {
                s.s("clr", &[]);
            }
        }
        "C02" => {
            let big = r.chance(120);
            let t = if big {
                Tree { ops: 6, big: 10, bulk: 10, deep: 10, values: 100, vol: 10 }
            } else {
                Tree { bulk: 80, deep: 60, ..SMALL }
            };
            config(s, r);
            tree(s, r, t);
            giant(s, r, 6000);
            if big {
                s.s("bulk", &[0, r.pick(&[400, 1500, 4000]), 77, r.below(2)]);
                s.s("lay", &[0, r.below(12), r.pick(&[1, 2, 5, 30, 512, 5000]), r.next() % 1000]);
                if r.chance(300) {
                    s.s("bulkv", &[0, 300 + r.below(900)]);
                }
            }
            if r.chance(30) {
                for _ in 0..2 {
                    s.s("setv", &[r.next() % 1000, name_seed(r), r.pick(&[0, 3, 3, 5, 7]), (45 + r.below(100)) * SEG, r.next() % 100_000]);
                }
            }
            let names = r.chance(60);
            if names {
                for _ in 0..2 + r.below(4) {
                    s.s("setv", &[r.next() % 1000, long_name(r), r.below(10), r.below(20), r.next() % 100_000]);
                    s.s("mk", &[r.next() % 1000, long_name(r)]);
                    s.s("cls", &[r.next() % 1000, r.pick(&[500, 8000, 32_767]), r.next() % 1000]);
                }
            }
            if r.chance(120) {
                s.s("mkd", &[0, if r.chance(200) { 511 } else { 100 + r.below(390) }, 30]);
            }
            s.s("flush", &[9, 0]);
            if r.chance(850) {
                for _ in 0..1 + r.below(4) {
                    if r.chance(650) {
                        // redirected references: cycles, shared subtrees
                        let kind = r.pick(&[6, 6, 15, 16, 16, 16, 13, 24, 1, 18, 8]);
                        s.s("kfld", &[kind, r.next() % 10_000, 8 + r.below(3), r.next() % 10_000]);
                    } else if r.chance(150) {
                        // every item of a list the same, and what it leads to empty
                        s.s("alias", &[r.next() % 10_000, r.next() % 10_000, r.below(4)]);
                    } else if r.chance(500) {
                        // inflated counts and sizes
                        let kind = r.pick(&[7, 10, 11, 14, 17, 22, 2]);
                        let (h, a) = (r.pick(&[0, 1, 2, 4, 6, 7, 11]), r.next() as u32 as u64);
                        s.s("kfld", &[kind, r.next() % 10_000, h, a]);
                    } else {
                        fault(s, r);
                    }
                }
            }
            s.s("boot", &[1]);
            s.s("r", &[0]);
            if r.chance(500) {
                s.s("walk", &[1 | 8 | 16, r.next() % 1000, 40]);
            }
            reads(s, r, 12, Some(NAV));
            if names {
                reads(s, r, 30, Some(&[6, 7, 40, 40, 41, 12, 13, 14, 14, 14, 15, 33, 33, 11, 32]));
            }
            let n = 15 + r.below(30);
            reads(s, r, n, None);
            s.s("clr", &[]);
        }
        "C03" => {
            let t = Tree { ops: 8, big: 80, bulk: 40, deep: 20, values: 350, vol: 30 };
            config(s, r);
            tree(s, r, t);
            s.s("flush", &[9, 0]);
            s.s("boot", &[3]);
            for _ in 0..1 + r.below(5) {
                if r.chance(120) {
                    s.s("steer", &[r.below(3)]);
                }
                for _ in 0..1 + r.below(8) {
                    op(s, r, t);
                }
                let phase = r.pick(&[0, 1, 1, 2, 3, 4, 5, 3, 6, 6, 6, 7, 7, 9]);
                s.s("flush", &[phase, r.next() % 100_000]);
                s.s("boot", &[3]);
                if r.chance(500) {
                    s.s("flush", &[9, 0]);
                    s.s("boot", &[3]);
                }
            }
        }
        "C04" => {
            let t = Tree { ops: 4, big: 0, bulk: 10, deep: 5, values: 200, vol: 20 };
            config(s, r);
            tree(s, r, t);
            s.s("flush", &[9, 0]);
            if r.chance(200) {
                op(s, r, t);
                s.s("flush", &[r.pick(&[1, 2, 3, 6]), r.next() % 10_000]);
            }
            if r.chance(60) {
                s.s("boot", &[2]);
            }
            for _ in 0..r.pick(&[1, 1, 1, 2, 2, 3]) {
                match r.weighted(&[560, 120, 60, 110, 60, 60]) {
                    0 => {
                        let (h, a) = how(r);
                        s.s("kfld", &[0, if r.chance(500) { k % 11 } else { r.below(11) }, h, a])
                    }
                    1 => s.s("flip", &[r.below(512), r.below(8)]),
                    2 => s.s("flip", &[r.below(4096), r.below(8)]),
                    3 => {
                        if r.chance(500) {
                            s.s("trunc", &[r.below(4), r.next() % 1_000_000])
                        } else {
                            s.s("trunc", &[0, r.pick(&[0, 1, 3, 4, 8, 20, 508, 511, 512, 4092, 4095, 4096, 4097, 4100, 8191, 8192])])
                        }
                    }
                    4 if r.chance(20) => s.s("ext", &[(1 << 20) + (r.next() % (1 << (8 + r.below(15)))), r.below(1000)]),
                    4 => s.s("ext", &[r.pick(&[0, 1, 511, 4095, 4096]), r.below(1000)]),
                    _ => s.s("sec", &[r.below(5), 0, r.next() % 1000]),
                }
            }
            if r.chance(700) {
                s.s("sum", &[]);
                if r.chance(100) {
                    s.s("kfld", &[0, 10, r.pick(&[0, 1, 2, 3, 6]), r.next() % 100]);
                }
            }
            s.s("boot", &[2]);
        }
        "C05" => {
            let t = Tree { ops: 16, big: 90, bulk: 50, deep: 30, values: 330, vol: 20 };
            config(s, r);
            tree(s, r, t);
            giant(s, r, 3000);
            s.s("flush", &[9, 0]);
            for _ in 0..r.below(4) {
                s.s("boot", &[r.below(2)]);
                s.s("chk", &[]);
                if r.chance(300) {
                    s.s("walk", &[3, r.next() % 1000, 100]);
                }
                for _ in 0..1 + r.below(10) {
                    op(s, r, t);
                }
                if r.chance(150) {
                    s.s("flush", &[r.below(7), r.next() % 10_000]);
                }
                s.s("flush", &[9, 0]);
            }
            s.s("boot", &[r.below(3)]);
            s.s("chk", &[]);
            s.s("walk", &[3, r.next() % 1000, 150]);
        }
        "C06" => {
            let t = Tree { ops: 18, big: 0, bulk: 90, deep: 40, values: 120, vol: 0 };
            config(s, r);
            tree(s, r, t);
            giant(s, r, 8000);
            if r.chance(60) {
                s.s("bulk", &[0, r.pick(&[300, 700, 1200, 3000]), 77, bulk_names(r)]);
                s.s("lay", &[0, r.below(6), r.pick(&[1, 2, 5, 30, 512]), r.next() % 1000]);
            }
            s.s("flush", &[9, 0]);
            for _ in 0..r.below(3) {
                s.s("boot", &[r.below(2)]);
                s.s("walk", &[8, r.next() % 1000, 40]);
                for _ in 0..1 + r.below(8) {
                    op(s, r, t);
                }
                s.s("flush", &[9, 0]);
            }
            s.s("boot", &[r.below(2)]);
            s.s("walk", &[8 | 32, r.next() % 1000, 60]);
            s.s("r", &[0]);
            let n = 20 + r.below(40);
            reads(s, r, n, Some(&[3, 3, 3, 4, 4, 5, 5, 6, 7, 12, 15, 13, 14, 33, 40, 40, 40]));
        }
        "C16" => {
            let t = Tree { ops: 10, big: 0, bulk: 20, deep: 20, values: 400, vol: 0 };
            config(s, r);
            tree(s, r, t);
            s.s("flush", &[9, 0]);
            if r.chance(600) {
                // Names no writer would store: other bytes, other lengths, the other encoding.
                for _ in 0..1 + r.below(4) {
                    let (h, a) = how(r);
                    s.s("kfld", &[r.pick(NAMES), r.next() % 10_000, h, a]);
                }
                s.s("sum", &[]);
            }
            s.s("boot", &[r.below(2)]);
            s.s("r", &[0]);
            reads(s, r, 12, Some(&[6, 7, 40, 40, 40, 40]));
            let n = 30 + r.below(60);
            reads(s, r, n, Some(&[6, 7, 40, 40, 41, 12, 13, 13, 14, 14, 14, 14, 15, 15, 33, 33, 11, 32]));
        }
        "C07" => {
            config(s, r);
            s.s("mk", &[0, 1]);
            giant(s, r, 4000);
            for _ in 0..2 + r.below(5) {
                let kind = r.pick(&[0, 1, 2, 3, 4, 5, 5, 6, 6, 7, 7, 8]);
                let big = if kind == 5 || kind == 6 { 800 } else { 200 };
                s.s("setv", &[r.next() % 4, name_seed(r), kind, data_len(r, big), r.next() % 100_000]);
            }
            s.s("flush", &[9, 0]);
            if r.chance(300) {
                for _ in 0..1 + r.below(3) {
                    let kind = r.below(9);
                    s.s("setv", &[r.next() % 4, name_seed(r), kind, data_len(r, 300), r.next() % 100_000]);
                }
                s.s("flush", &[9, 0]);
            }
            if r.chance(550) {
                for _ in 0..1 + r.below(3) {
                    if r.chance(850) {
                        let kind = r.pick(&[2, 2, 17, 17, 17, 18, 18, 19, 21, 22, 22, 23, 24, 24, 3]);
                        let (h, a) = how(r);
                        s.s("kfld", &[kind, r.next() % 10_000, h, a]);
                    } else {
                        fault(s, r);
                    }
                }
            }
            s.s("boot", &[1]);
            s.s("walk", &[r.pick(&[4, 4, 6, 7, 4 | 16]), r.next() % 1000, 20]);
        }
        "C08" | "C09" => {
            committed(s, r, Tree { bulk: 45, ..SMALL });
            let single = prop == "C09" && r.chance(700);
            if single {
                // Every kind of field and every way of damaging it, in turn.
                let (_, a) = how(r);
                s.s("kfld", &[1 + k % 25, r.next() % 10_000, (k / 25) % 17, a]);
            } else {
                faults(s, r, 4);
            }
            s.s("boot", &[r.pick(&[1, 1, 1, 0, 2])]);
            s.s("walk", &[r.pick(&[63, 31, 7, 15]), r.next() % 1000, 120]);
            if r.chance(400) {
                s.s("r", &[0]);
                let n = 10 + r.below(40);
                reads(s, r, n, None);
            }
            if prop == "C09" && r.chance(400) {
                s.s("clr", &[]);
            }
        }
        "C10" => {
            s.set("kind", 2);
            let t = Tree { ops: 14, big: 10, bulk: 60, deep: 60, values: 100, vol: 150 };
            config(s, r);
            tree(s, r, t);
            giant(s, r, 10000);
            if r.chance(40) {
                let deep = match r.idx(4) {
                    0 | 1 => 511,
                    2 => 100 + r.below(380),
                    _ => 512 + r.below(700),
                };
                s.s("mkd", &[0, deep, 30]);
            }
            if r.chance(6) {
                // Little else than keys.
                s.s("lay", &[0, r.pick(&[0, 0, 3, 1]), 512, 0]);
                s.s("bulk", &[0, 1500 + r.below(1500), 77, 0]);
            }
            // A cycle in a hive that has room for more keys than levels.
            let cycle = r.chance(60);
            if cycle {
                s.s("setv", &[0, name_seed(r), 0, 60_000 + r.below(200_000), r.next() % 100_000]);
                for _ in 0..r.below(3) {
                    s.s("mk", &[r.next() % 1000, name_seed(r)]);
                }
            }
            s.s("volall", &[r.next() % 10_000]);
            if r.chance(300) {
                for _ in 0..4 {
                    op(s, r, t);
                }
            }
            s.s("flush", &[9, 0]);
            if r.chance(200) {
                // Leave it dirty.
                op(s, r, t);
                s.s("flush", &[r.pick(&[2, 3, 4]), r.next() % 10_000]);
            }
            if cycle {
                s.s("kfld", &[r.pick(&[15, 16, 16]), r.next() % 10_000, 16, 4 * r.below(20) + 1]);
            }
            if r.chance(450) {
                for _ in 0..1 + r.below(3) {
                    if r.chance(700) {
                        let kind = r.pick(&[2, 3, 6, 14, 15, 16, 16, 5, 1]);
                        let (h, a) = how(r);
                        s.s("kfld", &[kind, r.next() % 10_000, h, a]);
                    } else {
                        fault(s, r);
                    }
                }
            }
            for _ in 0..r.below(4) {
                s.s("cut", &[r.next() % 1_000_000]);
            }
            s.set("stride", r.next() % 1000);
        }
        "C11" => {
            s.set("kind", 3);
            let t = Tree { ops: 10, big: 60, bulk: 50, deep: 20, values: 300, vol: 0 };
            // In some runs, all threads repeat the same few calls, on the same few handles.
            let few = r.chance(400);
            committed(s, r, t);
            if few {
                for i in 0..2 + r.below(4) {
                    s.s("setv", &[0, 300 + i, r.below(10), data_len(r, t.big), r.next() % 100_000]);
                }
                s.s("flush", &[9, 0]);
            }
            if r.chance(if few { 200 } else { 450 }) {
                faults(s, r, 3);
            }
            let tasks = r.pick(&[2, 2, 2, 3, 4]);
            s.set("tasks", tasks);
            s.s("r", &[0]);
            let n = r.below(12);
            reads(s, r, n, Some(&[6, 7, 40, 40, 40, 8, 46, 3]));
            let per = 4 + r.below(14);
            let pool: Vec<[u64; 5]> = if few {
                s.s("r", &[7, 0]);
                s.s("r", &[6, 0]);
                reads(s, r, 8, Some(&[40]));
                let n = 2 + r.below(3);
                let values = r.chance(500);
                (0..n)
                    .map(|_| {
                        let a = read_args(r, values.then_some(&[23, 23, 24, 25, 27, 20, 3, 2]));
                        [a[0], r.below(5), r.below(5), a[3], a[4]]
                    })
                    .collect()
            } else {
                vec![]
            };
            for i in 0..tasks * per {
                let a = if pool.is_empty() { read_args(r, None) } else { r.pick(&pool) };
                s.s("t", &[i % tasks, a[0], a[1], a[2], a[3], a[4]]);
            }
            // A schedule: mostly fine-grained, with bursts and long runs.
            let style = r.idx(4);
            for _ in 0..r.pick(&[5, 20, 60, 200]) {
                let gap = match style {
                    0 => 1 + r.below(30),
                    1 => 1 + r.below(120),
                    2 => {
                        if r.chance(800) {
                            1 + r.below(6)
                        } else {
                            1 + r.below(200)
                        }
                    }
                    _ => 1 + r.below(500),
                };
                s.s("s", &[gap, r.below(12)]);
            }
        }
        "C12" => {
            s.set("kind", 4);
            committed(s, r, Tree { big: 30, ..SMALL });
            if r.chance(700) {
                faults(s, r, 4);
            }
            s.s("r", &[0]);
            reads(s, r, 8, Some(NAV));
            let n = 20 + r.below(40);
            reads(s, r, n, None);
            for _ in 0..3 + r.below(4) {
                let at = if r.chance(400) { 16 + r.below(1 << 20) } else { r.below(16) };
                s.s("p", &[r.below(14), at, r.next() % 100_000]);
            }
            s.set("dump", r.chance(600) as u64);
        }
        "C13" => {
            s.set("kind", 1);
            let t = Tree { ops: 12, big: 250, bulk: 60, deep: 20, values: 320, vol: 0 };
            committed(s, r, t);
            if r.below(1500) == 0 {
                giant(s, r, 1);
                s.s("flush", &[9, 0]);
            }
            if r.chance(600) {
                for _ in 0..1 + r.below(3) {
                    if r.chance(600) {
                        let kind = r.pick(&[2, 14, 15, 16, 13, 7, 17, 17, 22, 22, 24, 23]);
                        let (h, a) = how(r);
                        s.s("kfld", &[kind, r.next() % 10_000, h, a]);
                    } else {
                        fault(s, r);
                    }
                }
            }
            // Find some keys and values first, then play with the iterators.
            s.s("i", &[0, 0, 0]);
            for _ in 0..20 + r.below(60) {
                s.s("i", &[r.below(24), r.next() % 10_000, r.next() % 10_000, r.next() % 100_000]);
            }
        }
        "C14" => {
            committed(s, r, Tree { big: 150, ..SMALL });
            if r.chance(700) {
                for _ in 0..1 + r.below(4) {
                    match r.idx(3) {
                        0 => {
                            // a size claimed for data that is not there
                            let (h, a) = (r.pick(&[2, 4, 7, 11, 1]), r.pick(&[SEG * 2, SEG * 3 - 1, SEG * 5, 1 << 30, 70_000]));
                            s.s("kfld", &[17, r.next() % 10_000, h, a]);
                            if r.chance(600) {
                                s.s("kfld", &[22, r.next() % 10_000, r.pick(&[2, 11, 7]), r.below(20)]);
                            }
                        }
                        1 => {
                            let (h, a) = how(r);
                            s.s("kfld", &[r.pick(&[7, 10, 11, 14, 17, 22]), r.next() % 10_000, h, a])
                        }
                        _ => fault(s, r),
                    }
                }
            }
            s.s("boot", &[r.below(3)]);
            s.s("walk", &[63, r.next() % 1000, 60]);
            s.s("r", &[0]);
            let n = 15 + r.below(40);
            reads(s, r, n, None);
            s.s("clr", &[]);
        }
        "C17" | "C19" => {
            s.set("kind", 6);
            let (first, n, _) = crate::plat::range(prop);
            // Interpreted machines are slow.
            let m = match prop {
                "C17" => match k % 800 {
                    j @ 0..=1 => j,
                    _ => 2 + k % 3,
                },
                _ => k % n as u64,
            };
            s.set("machine", first as u64 + m);
            let turn = match prop {
                "C17" if m >= 2 => k / 3,
                "C17" => k / 800,
                _ => k / n as u64,
            };
            let big = if prop == "C17" { 25 } else { 60 };
            let t = Tree { ops: 9, big, bulk: 8, deep: 8, values: 420, vol: 40 };
            config(s, r);
            tree(s, r, t);
            if prop == "C19" {
                giant(s, r, 20_000);
            }
            s.s("flush", &[9, 0]);
            if r.chance(150) {
                op(s, r, t);
                s.s("flush", &[r.below(10), r.next() % 10_000]);
            }
            if r.chance(750) {
                if r.chance(500) {
                    // Every kind of field and every way of damaging it, in turn.
                    let (_, a) = how(r);
                    let j = turn;
                    s.s("kfld", &[j % 25, r.next() % 10_000, (j / 25) % 16, a]);
                } else {
                    faults(s, r, 3);
                }
                if r.chance(300) {
                    s.s("sum", &[]);
                }
            }
            s.s("r", &[0]);
            reads(s, r, 6, Some(NAV));
            let n = 15 + r.below(30);
            reads(s, r, n, None);
            s.set("whole", r.chance(if prop == "C17" && m < 2 { 300 } else { 600 }) as u64);
        }
        "C15" => {
            s.set("kind", 5);
            config(s, r);
            let t = Tree { ops: 12, big: 0, bulk: 30, deep: 30, values: 0, vol: 10 };
            tree(s, r, t);
            giant(s, r, 5000);
            for _ in 0..r.below(8) {
                let kind = r.pick(&[1, 2, 3, 4, 5, 6, 7, 9]);
                s.s("setv", &[r.next() % 1000, name_seed(r), kind, data_len(r, 60), r.next() % 100_000]);
            }
            if r.chance(30) {
                s.s("mkd", &[0, if r.chance(300) { 511 } else { 100 + r.below(380) }, 30]);
            }
            s.s("flush", &[9, 0]);
            if r.chance(120) {
                op(s, r, t);
                s.s("flush", &[r.below(7), r.next() % 10_000]);
            }
            if r.chance(450) {
                if r.chance(300) {
                    // redirected references: cycles, shared subtrees
                    s.s("kfld", &[r.pick(&[6, 16, 16]), r.next() % 10_000, 8, r.next() % 10_000]);
                    s.s("sum", &[]);
                } else {
                    for _ in 0..1 + r.below(3) {
                        let (h, a) = how(r);
                        if r.chance(700) {
                            s.s("kfld", &[2 + r.below(23), r.next() % 10_000, h, a]);
                        } else {
                            fault(s, r);
                        }
                    }
                    if r.chance(600) {
                        s.s("sum", &[]);
                    }
                }
            }
            for _ in 0..r.below(12) {
                let w = r.weighted(&[6, 60, 25, 10]) as u64;
                let kind = if w < 2 && r.chance(850) { 2 + r.below(2) } else { r.below(4) };
                s.s("io", &[w, kind, r.next() % 100_000]);
            }
        }
        _ => {}
    }
    sc
}

/// What makes a case of this property count, in words.
pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" | "C02" | "C08" | "C09" | "C14" => "seeded registry history, flush, storage faults, then a seeded session of public calls; non-trivial: at least one fault changed bytes of the image (C14 also counts intact images with calls); distinct by hash of image and all answers",
        "C03" => "seeded registry history with flushes crashed at a seeded phase and a seeded subset of in-flight sectors lost or torn, each followed by a validated open; non-trivial: every such open; distinct by hash of images and answers",
        "C04" => "seeded header with seeded damage to fields, sectors or length, opened all ways; non-trivial: damage changed bytes; distinct by hash of images and answers",
        "C16" => "seeded names in keys, values and classes, damaged in most runs, compared with one another and with strings; non-trivial: at least one comparison; distinct by hash of image and all answers",
        "C05" | "C06" => "seeded registry history over several flushes and reboots, read back; non-trivial: more than one key; distinct by hash of images and answers",
        "C07" => "seeded values in all storage forms, damaged in half of the runs, read by every typed reader; non-trivial: at least one value read; distinct by hash of image and answers",
        "C10" => "seeded tree with volatile counts, damaged in half of the runs; cleared under watch and cut at seeded instants; non-trivial: a count was not zero; distinct by hash of images and answers",
        "C11" => "seeded sessions of 2-4 threads over one hive under a seeded preemption plan; non-trivial: at least one switch between threads; distinct by who returned what in which order",
        "C17" => "seeded hive, damaged in most runs, and a seeded session on it, repeated on a simulated machine of other byte order or word size; non-trivial: every case compared; distinct by hash of the answers",
        "C19" => "seeded hive, damaged in most runs, and a seeded session on it, repeated in another build of the crate (features, checks, optimisation); non-trivial: every case compared; distinct by hash of the answers",
        "C12" => "seeded session repeated at other places, in other byte slices and after other histories; non-trivial: at least one repetition; distinct by hash of the answers",
        "C13" => "seeded sequences of iterator calls checked against what next() on a twin yields; non-trivial: at least one iterator made; distinct by hash of the answers",
        _ => "seeded hive and seeded plan of system call results for readhive; non-trivial: at least one fault was delivered or storage fault applied; distinct by hash of the output and the delivered faults",
    }
}

/// (runs, wall cap in seconds) per tier.
pub fn budget(prop: &str, thorough: bool) -> (u64, u64) {
    let quick = match prop {
        "C15" => 45_000,
        "C04" => 1_500_000,
        "C17" => 250_000,
        "C19" => 400_000,
        "C16" => 1_000_000,
        "C06" => 130_000,
        "C02" | "C07" | "C14" => 180_000,
        _ => 400_000,
    };
    if prop == "C17" {
        (quick * if thorough { 8 } else { 1 }, if thorough { 600 } else { 200 })
    } else if thorough {
        (quick * 20, 600)
    } else {
        (quick, 90)
    }
}
