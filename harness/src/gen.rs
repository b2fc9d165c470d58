//! Workload generation: numbers, edge sets, and the ways of turning an edge set into a graph.
use crate::codec;
use crate::ctx::{skip, Ctx, Fail};
use crate::model::{observe, Model};
use crate::rng::Rng;
use graphrox::matrix::{CsrAdjacencyMatrix, MatrixRepresentation};
use graphrox::{Graph, GraphRepresentation};

/// Numbers worth trying: small, around powers of two, near the top, numbers in the sources.
pub fn num(r: &mut Rng, dict: &[u64]) -> u64 {
    match r.below(20) {
        0..=6 => r.below(10),
        7..=9 => r.below(70),
        10..=11 => r.below(1000),
        12..=14 => {
            let p = if r.bool() { 1u64 << r.below(64) } else { 1u64 << *r.pick(&[8, 15, 16, 24, 31, 32, 33, 48, 52, 53, 61, 62, 63]) };
            p.wrapping_add(r.below(5)).wrapping_sub(2)
        }
        15..=16 => u64::MAX - 1 - r.below(20),
        17..=18 if !dict.is_empty() => r.pick(dict).wrapping_add(r.below(3)).wrapping_sub(1),
        _ => {
            let bits = 1 + r.below(64);
            r.u64() >> (64 - bits)
        }
    }
}
/// A vertex id: any representable one.
pub fn id(r: &mut Rng, dict: &[u64]) -> u64 {
    num(r, dict).min(u64::MAX - 1)
}
/// A block dimension.
pub fn blockdim(r: &mut Rng, dict: &[u64], n: u64) -> u64 {
    match r.below(16) {
        0 => 0,
        1 => 1,
        2..=5 => r.range(2, 12),
        6 => r.range(2, 70),
        7 => n.saturating_sub(1),
        8 => n,
        9 => n.saturating_add(1),
        10 => n / 2,
        11 => (n / 2).saturating_add(1),
        12 => 8,
        13 => n / r.range(1, 9),
        _ => num(r, dict),
    }
}
pub fn level(r: &mut Rng) -> u8 {
    match r.below(6) {
        0 => *r.pick(&[0u8, 1, 2, 63, 64, 65, 127, 128, 255]),
        1 | 2 => r.range(1, 8) as u8,
        _ => r.range(1, 64) as u8,
    }
}

#[derive(Clone)]
pub struct Spec {
    pub und: bool,
    pub n: u64,
    pub edges: Vec<(u64, u64)>,
    pub shape: &'static str,
}
impl Spec {
    pub fn model(&self) -> Model {
        let mut m = Model::new(self.und);
        for (a, b) in &self.edges {
            m.add_edge(*a, *b);
        }
        m.n = m.n.max(self.n);
        m
    }
}

/// Fill one b x b block at (bc, br) with k ones inside an n-vertex graph.
pub fn fill_block(r: &mut Rng, out: &mut Vec<(u64, u64)>, n: u64, b: u64, bc: u64, br: u64, k: u64) {
    let (c0, r0) = (bc.saturating_mul(b), br.saturating_mul(b));
    if c0 >= n || r0 >= n {
        return;
    }
    let (w, h) = ((n - c0).min(b), (n - r0).min(b));
    let cells = (w as u128 * h as u128).min(u64::MAX as u128) as u64;
    if cells <= 1 << 14 {
        let mut all: Vec<u64> = (0..cells).collect();
        r.shuffle(&mut all);
        for c in all.into_iter().take(k as usize) {
            out.push((c0 + c % w, r0 + c / w));
        }
    } else {
        for _ in 0..k.min(400) {
            out.push((c0 + r.below(w), r0 + r.below(h)));
        }
    }
}

/// An edge set populated block by block, with populations around the given marks.
pub fn blocky(r: &mut Rng, dict: &[u64], b: u64, marks: &[u64]) -> Spec {
    let und = r.bool();
    let huge = r.chance(1, 4);
    let n = if huge {
        id(r, dict).max(b)
    } else {
        let nb = r.range(1, 6);
        match r.below(6) {
            0 => nb.saturating_mul(b),
            1 => nb.saturating_mul(b).saturating_add(1),
            2 => nb.saturating_mul(b).saturating_sub(1).max(1),
            3 => r.range(1, 20),
            _ => r.range(1, nb.saturating_mul(b).max(1)),
        }
    };
    let nblk = n / b + (n % b != 0) as u64;
    let mut edges = Vec::new();
    for _ in 0..r.range(1, 6) {
        let pos = |r: &mut Rng| match r.below(4) {
            0 => 0,
            1 => nblk - 1,
            2 => r.below(nblk.min(4)),
            _ => r.below(nblk),
        };
        let (bc, br) = (pos(r), pos(r));
        let full = b.saturating_mul(b);
        let k = match r.below(8) {
            0 => 1,
            1 => full,
            2 => full.saturating_sub(1),
            3 => r.below(full.min(5000)) + 1,
            _ => {
                let m = *r.pick(marks);
                m.saturating_add(r.below(3)).saturating_sub(1)
            }
        };
        fill_block(r, &mut edges, n, b, bc, br, k);
    }
    Spec { und, n, edges, shape: "blocks" }
}

/// Large edge sets, around 2^16 edges: within one block, in one column or row, or spread over as
/// many blocks, columns and rows. Returns the block side that matters, too.
pub fn big(r: &mut Rng) -> (Spec, u64) {
    let und = r.chance(1, 3);
    let many = |r: &mut Rng| *r.pick(&[65_534u64, 65_535, 65_536, 65_537, 65_600, 66_049, 70_000]);
    match r.below(5) {
        0 => {
            // one block that holds nearly everything, others with a few
            let b = r.range(256, 300);
            let n = b + r.below(2 * b);
            let k = many(r).min(b * b);
            let mut all: Vec<u64> = (0..b * b).collect();
            r.shuffle(&mut all);
            let (c0, r0) = if n >= 2 * b { (b * r.below(2), b * r.below(2)) } else { (0, 0) };
            let k = if r.bool() { b * b } else { k };
            let mut edges: Vec<(u64, u64)> = all.into_iter().take(k as usize).map(|c| (c0 + c % b, r0 + c / b)).collect();
            for _ in 0..r.below(40) {
                edges.push((r.below(n), r.below(n)));
            }
            (Spec { und, n, edges, shape: "dense block" }, b)
        }
        1 => {
            let d = many(r);
            let c = if r.bool() { r.below(d) } else { id(r, &[]).min(u64::MAX - 100_000) };
            let base = if r.bool() { 0 } else { id(r, &[]).min(u64::MAX - 100_000) };
            let inward = r.bool();
            let edges: Vec<(u64, u64)> = (0..d).map(|k| if inward { (base + k, c) } else { (c, base + k) }).collect();
            let n = edges.iter().map(|e| e.0.max(e.1) + 1).max().unwrap_or(0);
            (Spec { und, n, edges, shape: "large star" }, *r.pick(&[8, 256, 1 << 17, 70_000]))
        }
        2 => {
            // one edge per block
            let d = many(r);
            let step = *r.pick(&[8u64, 8, 9, 16]);
            let mul = *r.pick(&[1u64, 1, 3, 7, 40_503]);
            let edges: Vec<(u64, u64)> = (0..d).map(|k| (k * step, (k * mul % d) * step + k % step)).collect();
            (Spec { und, n: d * step, edges, shape: "one edge per block" }, 8)
        }
        3 => {
            let n = r.range(300, 3000);
            let d = many(r).min(n * n / 2);
            let edges: Vec<(u64, u64)> = (0..d).map(|_| (r.below(n), r.below(n))).collect();
            (Spec { und, n, edges, shape: "large random" }, r.range(2, 300))
        }
        _ => {
            let n = r.range(257, 270);
            let edges: Vec<(u64, u64)> = (0..n * n).map(|k| (k / n, k % n)).collect();
            (Spec { und, n, edges, shape: "large complete" }, *r.pick(&[8, 256, 257, 300]))
        }
    }
}

pub fn edges(r: &mut Rng, dict: &[u64]) -> Spec {
    let und = r.bool();
    let mut e: Vec<(u64, u64)> = Vec::new();
    let mut n;
    let shape;
    match r.below(21) {
        0..=4 => {
            shape = "tiny";
            n = r.range(0, 10);
            let den = r.range(1, 10);
            for a in 0..n {
                for b in 0..n {
                    if r.below(10) < den {
                        e.push((a, b));
                    }
                }
            }
        }
        5..=7 => {
            let lv = r.range(1, 64);
            return blocky(r, dict, 8, &[lv, 32]);
        }
        8 => {
            let b = r.range(2, 12);
            return blocky(r, dict, b, &[b, b * b / 2]);
        }
        9..=12 => {
            shape = "sparse-ids";
            let k = r.range(1, 8);
            let pool: Vec<u64> = (0..k).map(|_| id(r, dict)).collect();
            n = 0;
            for _ in 0..r.range(1, 14) {
                e.push((*r.pick(&pool), *r.pick(&pool)));
            }
        }
        13 => {
            shape = "star";
            let d = match r.below(12) {
                0 => r.range(250, 260),
                1..=3 if !dict.is_empty() => r.pick(dict).wrapping_add(r.below(3)).wrapping_sub(1).min(6000),
                _ => r.range(1, 120),
            };
            let c = id(r, dict);
            let base = if r.chance(1, 4) { id(r, dict).min(u64::MAX - 10_000) } else { 0 };
            let inward = r.bool();
            for k in 0..d {
                e.push(if inward { (base + k, c) } else { (c, base + k) });
            }
            n = 0;
        }
        14 => {
            shape = "complete";
            n = r.range(1, 34);
            for a in 0..n {
                for b in 0..n {
                    e.push((a, b));
                }
            }
            for _ in 0..r.below(3) {
                let k = r.us(e.len());
                e.swap_remove(k);
                if e.is_empty() {
                    break;
                }
            }
        }
        15 => {
            shape = "path/loops";
            n = r.range(1, 60);
            for a in 0..n {
                if r.chance(1, 3) {
                    e.push((a, a));
                }
                if a + 1 < n && r.chance(2, 3) {
                    e.push(if r.bool() { (a, a + 1) } else { (a + 1, a) });
                }
            }
        }
        16 => {
            shape = "triangular";
            n = r.range(2, 30);
            for a in 0..n {
                for b in 0..a {
                    if r.bool() {
                        e.push((a, b));
                    }
                }
            }
        }
        17 => {
            shape = "medium";
            n = r.range(20, 300);
            let m = r.range(1, 1200);
            for _ in 0..m {
                e.push((r.below(n), r.below(n)));
            }
        }
        18 => {
            shape = "communities";
            n = r.range(16, 200);
            let k = r.range(2, 6);
            for _ in 0..r.range(10, 800) {
                let c = r.below(k);
                let w = n / k;
                e.push((c * w + r.below(w.max(1)), c * w + r.below(w.max(1))));
            }
        }
        19 => {
            // a handful of edges that share one to three blocks
            shape = "few-blocks";
            n = 0;
            let at = if r.bool() { (r.below(4), r.below(4)) } else { (id(r, dict) >> 3, id(r, dict) >> 3) };
            for k in 0..r.range(1, 3) {
                let (c, w) = match k {
                    0 => at,
                    1 if r.bool() => (at.1, at.0),
                    _ => (at.0.saturating_sub(r.below(2)), at.1.saturating_sub(r.below(2))),
                };
                for _ in 0..r.range(1, 6) {
                    e.push(((c * 8 + r.below(8)).min(u64::MAX - 1), (w * 8 + r.below(8)).min(u64::MAX - 1)));
                }
            }
        }
        _ => {
            shape = "isolated";
            n = num(r, dict);
            if r.bool() && n > 0 {
                let a = r.below(n).min(u64::MAX - 1);
                e.push((a, a));
            }
        }
    }
    let top = e.iter().map(|x| x.0.max(x.1) + 1).max().unwrap_or(0);
    n = n.max(top);
    // sometimes trailing vertices without edges
    match r.below(8) {
        0 => n = n.saturating_add(r.range(1, 20)),
        1 => n = n.max(num(r, dict)),
        _ => {}
    }
    Spec { und, n, edges: e, shape }
}

/// Turn an edge set into a graph by one of the public routes. Panics or errors on the way are
/// set-up trouble, not a verdict.
pub fn build(cx: &mut Ctx, s: &Spec) -> Result<Graph, Fail> {
    cx.setup(|cx| {
        let m = s.model();
        let r = &mut cx.rng;
        let new = |und| if und { Graph::new_undirected() } else { Graph::new_directed() };
        let route = r.below(12);
        let g = match route {
            0 | 1 | 2 => {
                let mut g = new(s.und);
                let mut e = s.edges.clone();
                r.shuffle(&mut e);
                let first = r.bool();
                if first && s.n > 0 {
                    g.add_vertex(s.n - 1, None);
                }
                for (a, b) in &e {
                    g.add_edge(*a, *b);
                }
                if !first && s.n > 0 {
                    g.add_vertex(s.n - 1, None);
                }
                g
            }
            3 | 4 => {
                let mut g = new(s.und);
                let mut k = 0;
                while k < s.edges.len() {
                    let c = s.edges[k].0;
                    let mut l = vec![];
                    while k < s.edges.len() && s.edges[k].0 == c {
                        l.push(s.edges[k].1);
                        k += 1;
                    }
                    if r.chance(1, 4) {
                        l.push(l[0]);
                    }
                    g.add_vertex(c, Some(&l));
                }
                if s.n > 0 {
                    g.add_vertex(s.n - 1, Some(&[]));
                }
                g
            }
            5 | 6 => {
                let mut a = CsrAdjacencyMatrix::new();
                if s.n > 0 {
                    a.set_entry(0, s.n - 1, 0);
                }
                for (c, w) in &m.e {
                    a.set_entry(1, *c, *w);
                }
                if !s.und {
                    Graph::directed_from(a)
                } else if route == 5 {
                    skip(Graph::undirected_from(a), "undirected_from refused")?
                } else {
                    unsafe { Graph::undirected_from_unchecked(a) }
                }
            }
            7 | 8 => {
                let mut e: Vec<_> = m.e.iter().copied().collect();
                r.shuffle(&mut e);
                let b = codec::write_graph(s.und, m.n, &e);
                skip(Graph::try_from(b.as_slice()), "image refused")?
            }
            9 | 10 => {
                // churn: extra edges come and go, leaving emptied columns behind
                let mut g = new(s.und);
                let mut extra = vec![];
                for _ in 0..r.range(1, 12) {
                    if s.n == 0 {
                        break;
                    }
                    let (a, b) = (r.below(s.n), r.below(s.n));
                    if !m.has(a, b) {
                        extra.push((a, b));
                        g.add_edge(a, b);
                    }
                }
                for (a, b) in &s.edges {
                    g.add_edge(*a, *b);
                    if r.chance(1, 6) {
                        g.delete_edge(*a, *b);
                        g.add_edge(*a, *b);
                    }
                }
                for (a, b) in extra {
                    g.delete_edge(a, b);
                }
                if s.n > 0 {
                    g.add_vertex(s.n - 1, None);
                }
                g
            }
            _ => {
                let mut g = new(s.und);
                for (a, b) in &s.edges {
                    g.add_edge(*a, *b);
                }
                if s.n > 0 {
                    g.add_vertex(s.n - 1, None);
                }
                g.clone()
            }
        };
        cx.say(|| format!("route {} shape {}", route, s.shape));
        Ok(g)
    })
}

/// A graph and what it holds, as read through its own iterator.
pub fn graph_of(cx: &mut Ctx, s: &Spec) -> Result<(Graph, Model), Fail> {
    let g = build(cx, s)?;
    let m = cx.setup(|_| skip(observe(&g), "source graph unreadable"))?;
    if cx.setup(|_| g.edge_count()) != m.e.len() as u64 {
        return Err(Fail::Skip("source graph miscounts its edges"));
    }
    if m.und && m.asymmetric().is_some() {
        return Err(Fail::Skip("source graph is undirected but asymmetric"));
    }
    cx.feed(m.und as u64);
    cx.feed(m.n);
    for (a, b) in &m.e {
        cx.feed(*a);
        cx.feed(*b);
    }
    cx.nontrivial = !m.e.is_empty();
    cx.say(|| m.brief());
    cx.count("source edges", m.e.len() as u64);
    Ok((g, m))
}

/// An edge set, now and then a large one.
pub fn any(cx: &mut Ctx) -> Spec {
    if cx.big() {
        cx.count("large graphs", 1);
        big(&mut cx.rng).0
    } else {
        edges(&mut cx.rng, cx.dict)
    }
}
pub fn graph(cx: &mut Ctx) -> Result<(Graph, Model), Fail> {
    let s = any(cx);
    graph_of(cx, &s)
}

/// Change a graph in place without changing how many vertices and edges it has: some edges go,
/// as many others come. False if nothing could be done.
pub fn swap(cx: &mut Ctx, g: &mut Graph, m: &mut Model) -> bool {
    if m.e.is_empty() || m.n < 2 {
        return false;
    }
    let before = m.e.clone();
    for _ in 0..cx.rng.range(1, 3) {
        let r = &mut cx.rng;
        let at = (r.below(m.n), r.below(m.n));
        let Some(&(u, v)) = m.e.range(at..).next().or(m.e.iter().next()) else { break };
        let shift = *r.pick(&[1u64, 1, 8, m.n / 2, m.n - 1]);
        // near by, far away, along the row or the column, transposed
        let tries = [(u, v.wrapping_add(shift % m.n) % m.n), (u.wrapping_add(shift % m.n) % m.n, v), (v, u), (u ^ 1, v), (r.below(m.n), r.below(m.n)), (u, r.below(m.n))];
        let k = r.us(tries.len());
        for (x, y) in tries.iter().cycle().skip(k).take(tries.len()).copied() {
            if x >= m.n || y >= m.n || m.has(x, y) || m.und && (u == v) != (x == y) {
                continue;
            }
            let late = r.bool();
            if late {
                g.add_edge(x, y);
            }
            g.delete_edge(u, v);
            if !late {
                g.add_edge(x, y);
            }
            m.delete_edge(u, v);
            m.add_edge(x, y);
            cx.feed(x);
            cx.feed(y);
            cx.say(|| format!("in place: {}>{} gives way to {}>{}", u, v, x, y));
            break;
        }
    }
    m.e != before
}
