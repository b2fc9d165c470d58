//! An independent reading of the two published byte formats: writer, parser and validator.
use crate::model::Model;
use std::collections::{BTreeMap, BTreeSet};

pub const G_MAGIC: u32 = 0x7ae71ffd;
pub const C_MAGIC: u32 = 0x71ff7aed;
pub const G_HEAD: usize = 26;
pub const C_HEAD: usize = 42;

pub fn be32(b: &[u8], at: usize) -> u32 {
    (0..4).fold(0, |a, i| a << 8 | b[at + i] as u32)
}
pub fn be64(b: &[u8], at: usize) -> u64 {
    (0..8).fold(0, |a, i| a << 8 | b[at + i] as u64)
}
pub fn put64(o: &mut Vec<u8>, x: u64) {
    for i in (0..8).rev() {
        o.push((x >> (8 * i)) as u8);
    }
}
pub fn put32(o: &mut Vec<u8>, x: u32) {
    for i in (0..4).rev() {
        o.push((x >> (8 * i)) as u8);
    }
}
pub fn set64(b: &mut [u8], at: usize, x: u64) {
    for i in 0..8 {
        b[at + i] = (x >> (8 * (7 - i))) as u8;
    }
}

/// The same bytes in the last part of another buffer, at any alignment: an image read from the
/// middle of something else.
pub struct Placed(Vec<u8>, usize);
impl Placed {
    pub fn new(b: &[u8]) -> Placed {
        let h = b.iter().rev().take(64).fold(b.len() as u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3));
        let off = if (h >> 40) & 1 == 0 { 0 } else { (h >> 41) as usize % 24 };
        let mut v = Vec::with_capacity(off + b.len());
        v.resize(off, 0xa5);
        v.extend_from_slice(b);
        Placed(v, off)
    }
}
impl std::ops::Deref for Placed {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0[self.1..]
    }
}

pub fn write_graph(und: bool, n: u64, edges: &[(u64, u64)]) -> Vec<u8> {
    let mut o = Vec::new();
    put32(&mut o, G_MAGIC);
    put32(&mut o, 1);
    put64(&mut o, n);
    put64(&mut o, edges.len() as u64);
    o.push(und as u8);
    o.push(0);
    for (a, b) in edges {
        put64(&mut o, *a);
        put64(&mut o, *b);
    }
    o
}

pub fn block_dim(n: u64) -> u64 {
    let d = n / 8 + (n % 8 != 0) as u64;
    d.max(1)
}

pub fn write_compressed(und: bool, n: u64, level: u8, words: &[((u64, u64), u64)]) -> Vec<u8> {
    let mut o = Vec::new();
    put32(&mut o, C_MAGIC);
    put32(&mut o, 2);
    put64(&mut o, block_dim(n));
    put64(&mut o, words.len() as u64);
    put64(&mut o, words.iter().map(|w| w.1.count_ones() as u64).sum());
    put64(&mut o, n);
    o.push(und as u8);
    o.push(level);
    for ((c, r), w) in words {
        put64(&mut o, *w);
        put64(&mut o, *c);
        put64(&mut o, *r);
    }
    o
}

/// What a standard image describes, if it is a consistent description of one graph.
pub fn read_graph(b: &[u8]) -> Result<Model, String> {
    if b.len() < G_HEAD {
        return Err("short header".into());
    }
    if be32(b, 0) != G_MAGIC {
        return Err("magic".into());
    }
    if be32(b, 4) != 1 {
        return Err("version".into());
    }
    let (n, cnt) = (be64(b, 8), be64(b, 16));
    if b[24] > 1 {
        return Err("direction flag".into());
    }
    if b[25] != 0 {
        return Err("weighted flag".into());
    }
    if (b.len() - G_HEAD) as u128 != cnt as u128 * 16 {
        return Err("length".into());
    }
    let und = b[24] == 1;
    let mut e = BTreeSet::new();
    for k in 0..cnt as usize {
        let (u, v) = (be64(b, G_HEAD + 16 * k), be64(b, G_HEAD + 16 * k + 8));
        if u >= n || v >= n {
            return Err("coordinate outside vertex count".into());
        }
        if !e.insert((u, v)) {
            return Err("repeated record".into());
        }
    }
    let m = Model { und, n, e };
    if und && m.asymmetric().is_some() {
        return Err("undirected but asymmetric".into());
    }
    Ok(m)
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct CModel {
    pub und: bool,
    pub n: u64,
    pub level: u8,
    pub w: BTreeMap<(u64, u64), u64>,
}
impl CModel {
    pub fn edges(&self) -> BTreeSet<(u64, u64)> {
        crate::model::unpack(&self.w)
    }
    pub fn edge_count(&self) -> u64 {
        self.w.values().map(|w| w.count_ones() as u64).sum()
    }
}

pub fn read_compressed(b: &[u8]) -> Result<CModel, String> {
    if b.len() < C_HEAD {
        return Err("short header".into());
    }
    if be32(b, 0) != C_MAGIC {
        return Err("magic".into());
    }
    if be32(b, 4) != 2 {
        return Err("version".into());
    }
    let (dim, cnt, ec, n) = (be64(b, 8), be64(b, 16), be64(b, 24), be64(b, 32));
    if b[40] > 1 {
        return Err("direction flag".into());
    }
    let level = b[41];
    if level < 1 || level > 64 {
        return Err("level".into());
    }
    if dim != block_dim(n) {
        return Err("block dimension".into());
    }
    if (b.len() - C_HEAD) as u128 != cnt as u128 * 24 {
        return Err("length".into());
    }
    let mut w = BTreeMap::new();
    let mut ones: u128 = 0;
    for k in 0..cnt as usize {
        let at = C_HEAD + 24 * k;
        let (word, c, r) = (be64(b, at), be64(b, at + 8), be64(b, at + 16));
        if word == 0 {
            return Err("zero word".into());
        }
        if c >= dim || r >= dim {
            return Err("block outside matrix".into());
        }
        for bit in 0..64u128 {
            if word >> bit & 1 == 1 && (c as u128 * 8 + bit % 8 >= n as u128 || r as u128 * 8 + bit / 8 >= n as u128) {
                return Err("bit outside vertex count".into());
            }
        }
        ones += word.count_ones() as u128;
        if w.insert((c, r), word).is_some() {
            return Err("repeated record".into());
        }
    }
    if ones != ec as u128 {
        return Err("edge count".into());
    }
    let und = b[40] == 1;
    if und {
        // symmetric: the transposed block must hold the transposed bits
        for ((c, r), word) in &w {
            let mut t = 0u64;
            for bit in 0..64 {
                if word >> bit & 1 == 1 {
                    t |= 1 << (8 * (bit % 8) + bit / 8);
                }
            }
            if w.get(&(*r, *c)) != Some(&t) {
                return Err("undirected but asymmetric".into());
            }
        }
    }
    Ok(CModel { und, n, level, w })
}
