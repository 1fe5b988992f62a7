//! The reference registry: what has been stored, with no idea of how.
#[cfg(not(feature = "host"))]
#[allow(unused_imports)]
use crate::prelude::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Name {
    pub latin1: bool,
    pub units: Vec<u16>,
}

impl Name {
    pub fn bytes(&self) -> Vec<u8> {
        if self.latin1 {
            self.units.iter().map(|&u| u as u8).collect()
        } else {
            self.units.iter().flat_map(|u| u.to_le_bytes()).collect()
        }
    }
    #[cfg(feature = "host")]
    pub fn cmp(&self, o: &Name) -> core::cmp::Ordering {
        crate::upcase::cmp(&self.units, &o.units)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Value {
    pub name: Name,
    pub ty: u32,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Key {
    pub name: Name,
    pub class: Option<Vec<u16>>,
    pub values: Vec<Value>,
    /// Sorted by name.
    pub subs: Vec<Key>,
}

/// Flat, comparable listing of a tree (pre-order).
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Line {
    Key { depth: u32, latin1: bool, name: Vec<u8>, class: Option<Vec<u8>> },
    Val { depth: u32, latin1: bool, name: Vec<u8>, ty: u32, size: u32, data: Vec<u8> },
}

impl Key {
    pub fn dump(&self) -> Vec<Line> {
        let mut v = Vec::new();
        self.dump_into(0, &mut v);
        v
    }
    fn dump_into(&self, depth: u32, out: &mut Vec<Line>) {
        out.push(Line::Key {
            depth,
            latin1: self.name.latin1,
            name: self.name.bytes(),
            class: self.class.as_ref().map(|c| c.iter().flat_map(|u| u.to_le_bytes()).collect()),
        });
        for x in &self.values {
            out.push(Line::Val {
                depth,
                latin1: x.name.latin1,
                name: x.name.bytes(),
                ty: x.ty,
                size: x.data.len() as u32,
                data: x.data.clone(),
            });
        }
        for s in &self.subs {
            s.dump_into(depth + 1, out);
        }
    }
    pub fn count(&self) -> usize {
        1 + self.subs.iter().map(|s| s.count()).sum::<usize>()
    }
}
