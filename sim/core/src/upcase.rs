//! Windows-style upper-casing of UTF-16 code units (oracle's own copy of the table).
pub use crate::upcase_table::TABLE;
use core::cmp::Ordering;
use std::sync::OnceLock;

struct Maps {
    up: Vec<u16>,
    /// For each code unit, all code units with the same upper case (itself included).
    same: std::collections::BTreeMap<u16, Vec<u16>>,
}

fn maps() -> &'static Maps {
    static M: OnceLock<Maps> = OnceLock::new();
    M.get_or_init(|| {
        let mut up: Vec<u16> = (0..=0xffffu32).map(|c| c as u16).collect();
        for &(l, u) in TABLE {
            up[l as usize] = u;
        }
        let mut same = std::collections::BTreeMap::<u16, Vec<u16>>::new();
        for &(l, u) in TABLE {
            let e = same.entry(u).or_default();
            // `u` itself may be mapped on by the table; it is its own class only if it is a fixpoint.
            if e.is_empty() && up[u as usize] == u {
                e.push(u);
            }
            e.push(l);
        }
        Maps { up, same }
    })
}

pub fn up(c: u16) -> u16 {
    maps().up[c as usize]
}

/// All code units that compare equal to `c`.
pub fn equals_of(c: u16) -> Vec<u16> {
    maps().same.get(&up(c)).cloned().unwrap_or_else(|| vec![c])
}

pub fn cmp(a: &[u16], b: &[u16]) -> Ordering {
    let n = a.len().min(b.len());
    for i in 0..n {
        let (x, y) = (up(a[i]), up(b[i]));
        if x != y {
            return x.cmp(&y);
        }
    }
    a.len().cmp(&b.len())
}
