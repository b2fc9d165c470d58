//! The reference model: a plain set of ordered pairs. Nothing here shares code or data
//! structures with the library.
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Model {
    pub und: bool,
    pub n: u64,
    pub e: BTreeSet<(u64, u64)>,
}

pub const NOID: u64 = u64::MAX;

impl Model {
    pub fn new(und: bool) -> Self {
        Model { und, n: 0, e: BTreeSet::new() }
    }
    fn touch(&mut self, v: u64) {
        if v != NOID && v + 1 > self.n {
            self.n = v + 1;
        }
    }
    pub fn add_edge(&mut self, u: u64, v: u64) {
        if u == NOID || v == NOID {
            return;
        }
        self.touch(u);
        self.touch(v);
        self.e.insert((u, v));
        if self.und {
            self.e.insert((v, u));
        }
    }
    pub fn add_vertex(&mut self, v: u64, to: Option<&[u64]>) {
        self.touch(v);
        for w in to.unwrap_or(&[]) {
            self.add_edge(v, *w);
        }
    }
    pub fn delete_edge(&mut self, u: u64, v: u64) {
        self.e.remove(&(u, v));
        if self.und {
            self.e.remove(&(v, u));
        }
    }
    pub fn has(&self, u: u64, v: u64) -> bool {
        self.e.contains(&(u, v))
    }
    pub fn out(&self, u: u64) -> Vec<u64> {
        self.e.range((u, 0)..=(u, u64::MAX)).map(|x| x.1).collect()
    }
    pub fn inn(&self, v: u64) -> Vec<u64> {
        self.e.iter().filter(|x| x.1 == v).map(|x| x.0).collect()
    }
    pub fn asymmetric(&self) -> Option<(u64, u64)> {
        self.e.iter().find(|(a, b)| !self.e.contains(&(*b, *a))).copied()
    }
    /// Number of edges in each b x b block, keyed (block column, block row).
    pub fn census(&self, b: u64) -> BTreeMap<(u64, u64), u64> {
        let mut c = BTreeMap::new();
        for (u, v) in &self.e {
            *c.entry((u / b, v / b)).or_insert(0) += 1;
        }
        c
    }
    /// 8x8 block words, keyed (block column, block row).
    pub fn words(&self) -> BTreeMap<(u64, u64), u64> {
        let mut c = BTreeMap::new();
        for (u, v) in &self.e {
            *c.entry((u / 8, v / 8)).or_insert(0u64) |= 1u64 << (8 * (v % 8) + u % 8);
        }
        c
    }
    pub fn brief(&self) -> String {
        let mut s = format!("{} n={} |E|={} [", if self.und { "undirected" } else { "directed" }, self.n, self.e.len());
        for (i, (a, b)) in self.e.iter().enumerate() {
            if i == 24 {
                s.push_str("...");
                break;
            }
            s.push_str(&format!("{}>{} ", a, b));
        }
        s.push(']');
        s
    }
    pub fn vertices(&self) -> Vec<u64> {
        let mut s = BTreeSet::new();
        for (a, b) in &self.e {
            s.insert(*a);
            s.insert(*b);
        }
        s.into_iter().collect()
    }
    pub fn diff(&self, other: &Model) -> Option<String> {
        if self.und != other.und {
            return Some(format!("direction flag: undirected={} but expected {}", self.und, other.und));
        }
        if self.n != other.n {
            return Some(format!("vertex count {} but expected {}", self.n, other.n));
        }
        if let Some(x) = self.e.difference(&other.e).next() {
            return Some(format!("has unexpected edge {:?} ({} edges, expected {})", x, self.e.len(), other.e.len()));
        }
        if let Some(x) = other.e.difference(&self.e).next() {
            return Some(format!("lacks edge {:?} ({} edges, expected {})", x, self.e.len(), other.e.len()));
        }
        None
    }
}

const ITER_CAP: usize = 3_000_000;

/// Read a graph through its iterator (which must stop, and list no edge twice).
pub fn observe(g: &Graph) -> Result<Model, String> {
    let mut m = Model { und: g.is_undirected(), n: g.vertex_count(), e: BTreeSet::new() };
    for (i, (a, b)) in g.into_iter().enumerate() {
        if i > ITER_CAP {
            return Err("edge iteration does not stop".into());
        }
        if !m.e.insert((a, b)) {
            return Err(format!("edge iteration lists {:?} twice", (a, b)));
        }
    }
    Ok(m)
}

/// However an iteration is driven - plainly, by skipping, counting, folding, or past its end -
/// it gives every element of `want` at most once, skips what it is told to skip and stops.
pub fn iteration<T: Ord + Copy + std::fmt::Debug, I: Iterator<Item = T>>(rng: &mut crate::rng::Rng, make: impl Fn() -> I, want: &BTreeSet<T>) -> Result<u64, String> {
    let n = want.len();
    let fresh = |x: T, seen: &mut BTreeSet<T>, how: &str| {
        if !want.contains(&x) {
            return Err(format!("iteration ({}) gives {:?}, which is not there", how, x));
        }
        if !seen.insert(x) {
            return Err(format!("iteration ({}) gives {:?} twice", how, x));
        }
        Ok(())
    };
    let mut it = make();
    let (mut seen, mut gone) = (BTreeSet::new(), 0usize);
    let mut how = String::new();
    for _ in 0..rng.below(6) {
        let k = match rng.below(4) {
            0 => 0,
            1 => rng.us(4),
            _ => rng.us(n + 2),
        };
        let (lo, hi) = it.size_hint();
        let left = n.saturating_sub(gone);
        if lo > left || hi.is_some_and(|h| h < left) {
            return Err(format!("size_hint ({}, {:?}) with {} elements to come (after {})", lo, hi, left, how));
        }
        let (x, step) = if rng.bool() { (it.next(), 0) } else { (it.nth(k), k) };
        how.push_str(&format!("+{} ", step + 1));
        gone = n.min(gone + step + 1);
        match x {
            Some(x) if left > step => fresh(x, &mut seen, &how)?,
            None if left <= step => {}
            x => return Err(format!("iteration ({}) gives {:?} with {} of {} elements to come before it", how, x, left, n)),
        }
    }
    let left = n - gone;
    if rng.chance(1, 5) {
        // several iterations under way at once do not disturb each other
        let mut its = [make(), make(), make()];
        let mut seens = [BTreeSet::new(), BTreeSet::new(), BTreeSet::new()];
        for _ in 0..3 * n {
            let k = rng.us(3);
            match its[k].next() {
                Some(x) => fresh(x, &mut seens[k], "one of three at once")?,
                None if seens[k].len() == n => {}
                None => return Err(format!("one of three iterations at once ends after {} of {} elements", seens[k].len(), n)),
            }
        }
        for (it, seen) in its.into_iter().zip(&seens) {
            let c = it.take(n + 10).count();
            if c + seen.len() != n {
                return Err(format!("one of three iterations at once gives {} elements, {} expected", c + seen.len(), n));
            }
        }
    }
    match rng.below(6) {
        0 => {
            let c = it.take(n + 10).count();
            if c != left {
                return Err(format!("{} elements counted by take, {} were to come ({})", c, left, how));
            }
        }
        1 => {
            let c = it.count();
            if c != left {
                return Err(format!("count() = {}, {} were to come ({})", c, left, how));
            }
        }
        2 => match it.last() {
            Some(x) if left > 0 => fresh(x, &mut seen, "last")?,
            None if left == 0 => {}
            x => return Err(format!("last() = {:?} with {} elements to come ({})", x, left, how)),
        },
        3 => {
            let step = 1 + rng.us(5);
            let v: Vec<T> = it.step_by(step).take(n + 10).collect();
            if v.len() != left.div_ceil(step) {
                return Err(format!("{} elements in steps of {}, {} were to come ({})", v.len(), step, left, how));
            }
            for x in v {
                fresh(x, &mut seen, "steps")?;
            }
        }
        4 => {
            let mut v = vec![];
            it.fold((), |_, x| v.push(x));
            if v.len() != left {
                return Err(format!("{} elements folded, {} were to come ({})", v.len(), left, how));
            }
            for x in v {
                fresh(x, &mut seen, "fold")?;
            }
        }
        _ => {
            for _ in 0..left {
                match it.next() {
                    Some(x) => fresh(x, &mut seen, "next")?,
                    None => return Err(format!("iteration ends early ({})", how)),
                }
            }
            for k in 0..3 {
                if let Some(x) = it.next() {
                    return Err(format!("iteration goes on with {:?} after its end (call {} after it)", x, k + 1));
                }
            }
        }
    }
    Ok(n as u64)
}

/// `g` must be the graph `m`, as far as iteration, counts and flags tell.
pub fn same(what: &str, g: &Graph, m: &Model) -> Result<(), String> {
    let o = observe(g).map_err(|e| format!("{}: {}", what, e))?;
    if let Some(d) = o.diff(m) {
        return Err(format!("{}: {}", what, d));
    }
    if g.edge_count() != m.e.len() as u64 {
        return Err(format!("{}: edge_count() = {} but {} edges exist", what, g.edge_count(), m.e.len()));
    }
    Ok(())
}

/// Every query of `g` about the vertices `vs` must agree with the model.
/// Returns the number of answers compared.
pub fn queries(g: &Graph, m: &Model, vs: &[u64]) -> Result<u64, String> {
    let mut seen = 3;
    if g.is_undirected() != m.und {
        return Err(format!("is_undirected() = {}, expected {}", g.is_undirected(), m.und));
    }
    if g.vertex_count() != m.n {
        return Err(format!("vertex_count() = {}, expected {}", g.vertex_count(), m.n));
    }
    if g.edge_count() != m.e.len() as u64 {
        return Err(format!("edge_count() = {}, expected {}", g.edge_count(), m.e.len()));
    }
    for &v in vs {
        let mut o = g.get_vertex_out_edges(v);
        o.sort_unstable();
        let mo = m.out(v);
        if o != mo {
            return Err(format!("out-edges of {} are {:.200?}, expected {:.200?}", v, o, mo));
        }
        if g.get_vertex_out_degree(v) != mo.len() as u64 {
            return Err(format!("out-degree of {} is {}, expected {}", v, g.get_vertex_out_degree(v), mo.len()));
        }
        let mut i = g.get_vertex_in_edges(v);
        i.sort_unstable();
        let mi = m.inn(v);
        if i != mi {
            return Err(format!("in-edges of {} are {:.200?}, expected {:.200?}", v, i, mi));
        }
        if g.get_vertex_in_degree(v) != mi.len() as u64 {
            return Err(format!("in-degree of {} is {}, expected {}", v, g.get_vertex_in_degree(v), mi.len()));
        }
        for &w in vs {
            if g.does_edge_exist(v, w) != m.has(v, w) {
                return Err(format!("does_edge_exist({}, {}) = {}", v, w, g.does_edge_exist(v, w)));
            }
            seen += 1;
        }
        seen += 4;
    }
    Ok(seen)
}

/// A compressed graph as its queries describe it on the given blocks.
pub fn cwords(c: &CompressedGraph, blocks: impl Iterator<Item = (u64, u64)>) -> BTreeMap<(u64, u64), u64> {
    blocks
        .map(|(x, y)| ((x, y), c.get_compressed_matrix_entry(x, y)))
        .filter(|x| x.1 != 0)
        .collect()
}
/// The edges that a set of block words encodes.
pub fn unpack(w: &BTreeMap<(u64, u64), u64>) -> BTreeSet<(u64, u64)> {
    let mut e = BTreeSet::new();
    for ((c, r), word) in w {
        for bit in 0..64u64 {
            if word >> bit & 1 == 1 {
                e.insert((c * 8 + bit % 8, r * 8 + bit / 8));
            }
        }
    }
    e
}
