//! C02: undirected graphs stay symmetric, however they were obtained.
use crate::codec;
use crate::ctx::{skip, viol, Ctx, Res};
use crate::gen;
use crate::model::{observe, Model};
use crate::props::c01;
use graphrox::matrix::{CsrAdjacencyMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};

fn symmetric(cx: &mut Ctx, how: &str, g: &Graph, und: bool) -> Result<Model, crate::ctx::Fail> {
    ensure!(g.is_undirected() == und, "{}: is_undirected() = {} but the source says {}", how, g.is_undirected(), und);
    let m = viol(observe(g))?;
    cx.count("graphs scanned", 1);
    if !und {
        return Ok(m);
    }
    cx.count("edges checked for their mirror", m.e.len() as u64);
    if let Some((a, b)) = m.asymmetric() {
        bad!("{}: undirected graph holds {}>{} but not the reverse", how, a, b);
    }
    let mut vs = m.vertices();
    if vs.len() > 40 {
        cx.rng.shuffle(&mut vs);
        vs.truncate(40);
    }
    vs.push(m.n);
    for v in vs {
        let (mut i, mut o) = (g.get_vertex_in_edges(v), g.get_vertex_out_edges(v));
        i.sort_unstable();
        o.sort_unstable();
        ensure!(i == o, "{}: vertex {} has in-edges {:.200?} but out-edges {:.200?}", how, v, i, o);
        let (di, dout) = (g.get_vertex_in_degree(v), g.get_vertex_out_degree(v));
        ensure!(di == dout && di == o.len() as u64, "{}: vertex {} has in-degree {} and out-degree {} with {} neighbours", how, v, di, dout, o.len());
        for w in o.iter().take(8) {
            ensure!(g.does_edge_exist(v, *w) && g.does_edge_exist(*w, v), "{}: edge {}-{} exists one way only", how, v, w);
        }
    }
    Ok(m)
}

/// Matrices: symmetric, almost symmetric, arbitrary.
fn from_matrix(cx: &mut Ctx) -> Res {
    let mut s = gen::any(cx);
    s.und = cx.rng.chance(2, 3);
    let mut e = s.model().e;
    let whole = e.clone();
    // break symmetry at one place, or at a few
    if s.und && cx.rng.bool() && !e.is_empty() {
        for _ in 0..cx.rng.range(1, 2) {
            let at = (cx.rng.below(s.n.max(1)), cx.rng.below(s.n.max(1)));
            if let Some(x) = e.range(at..).next().or(e.iter().next()).copied() {
                e.remove(&x);
                // elsewhere instead: as many ones as before
                let to = (x.0, cx.rng.below(s.n.max(1)));
                if cx.rng.bool() && to != x {
                    e.insert(to);
                }
            }
        }
    }
    let want = Model { und: true, n: 0, e: e.clone() }.asymmetric().is_none();
    let mut a = CsrAdjacencyMatrix::new();
    let mut order: Vec<_> = e.iter().copied().collect();
    cx.rng.shuffle(&mut order);
    let m = cx.setup(|cx| {
        a.set_entry(0, s.n.saturating_sub(1), 0);
        for (c, r) in &order {
            a.set_entry(1, *c, *r);
        }
        // cells that come and go leave emptied columns
        for _ in 0..cx.rng.below(4) {
            let (c, r) = (cx.rng.below(s.n.max(1)), cx.rng.below(s.n.max(1)));
            if !e.contains(&(c, r)) && c < u64::MAX && r < u64::MAX {
                a.set_entry(1, c, r);
                a.zero_entry(c, r);
            }
        }
        let seen: std::collections::BTreeSet<_> = (&a).into_iter().collect();
        seen == e
    });
    if !m {
        return Err(crate::ctx::Fail::Skip("matrix does not hold what was written"));
    }
    cx.feed(e.len() as u64);
    for (x, y) in &e {
        cx.feed(*x);
        cx.feed(*y);
    }
    cx.nontrivial = !e.is_empty();
    cx.say(|| format!("matrix with {} ones, symmetric: {}", e.len(), want));
    cx.count("matrices converted", 1);
    let dim = a.dimension();
    let d = Graph::directed_from(a.clone());
    let dm = symmetric(cx, "directed_from", &d, false)?;
    ensure!(dm.e == e && dm.n == dim, "directed_from changed the matrix: {} edges, expected {}", dm.e.len(), e.len());
    if s.und && cx.rng.chance(1, 3) {
        // what was converted just before must make no difference
        let mut w = CsrAdjacencyMatrix::new();
        cx.setup(|_| {
            w.set_entry(0, s.n.saturating_sub(1), 0);
            for (c, r) in &whole {
                w.set_entry(1, *c, *r);
            }
        });
        let _ = cx.setup(|_| Graph::undirected_from(w).is_ok());
        cx.count("matrices converted right after the one they were made from", 1);
    }
    match Graph::undirected_from(a.clone()) {
        Ok(g) => {
            ensure!(want, "undirected_from accepted an asymmetric matrix: {}", Model { und: true, n: dim, e: e.clone() }.brief());
            let m = symmetric(cx, "undirected_from", &g, true)?;
            ensure!(m.e == e && m.n == dim, "undirected_from changed the matrix: {} edges, expected {}", m.e.len(), e.len());
        }
        Err(graphrox::error::GraphRoxError::InvalidFormat(_)) => ensure!(!want, "undirected_from refused a symmetric matrix: {}", Model { und: true, n: dim, e: e.clone() }.brief()),
        Err(e) => bad!("undirected_from refused a matrix with {:?}, not as an invalid format", e),
    }
    if want {
        let g = unsafe { Graph::undirected_from_unchecked(a) };
        let m = symmetric(cx, "undirected_from_unchecked", &g, true)?;
        ensure!(m.e == e, "undirected_from_unchecked changed the matrix");
    }
    Ok(())
}

/// Byte images flagged undirected: accepted ones must be symmetric.
fn from_bytes(cx: &mut Ctx) -> Res {
    let mut s = gen::edges(&mut cx.rng, cx.dict);
    s.und = true;
    let m = s.model();
    if m.e.len() > 3000 {
        return Ok(());
    }
    cx.nontrivial = m.e.len() > 1;
    for (x, y) in &m.e {
        cx.feed(*x);
        cx.feed(*y);
    }
    let mut e: Vec<_> = m.e.iter().copied().collect();
    cx.rng.shuffle(&mut e);
    let kind = cx.rng.below(4);
    cx.feed(kind);
    cx.say(|| format!("undirected image, change {}: {}", kind, m.brief()));
    if kind >= 1 && !e.is_empty() {
        let k = cx.rng.us(e.len());
        match kind {
            1 => {
                e.swap_remove(k);
            }
            2 => {
                // a mirror replaced by a second copy of its partner
                let (a, b) = e[k];
                if let Some(j) = e.iter().position(|x| *x == (b, a)) {
                    e[j] = (a, b);
                }
            }
            _ => {
                let (a, b) = e[k];
                e[k] = (a, if b > 0 { b - 1 } else { b + (m.n > 1) as u64 });
            }
        }
    }
    if cx.rng.chance(1, 3) {
        // what was decoded just before must make no difference
        let whole: Vec<_> = m.e.iter().copied().collect();
        let w: Vec<_> = m.words().into_iter().collect();
        let _ = cx.setup(|_| Graph::try_from(&codec::write_graph(true, m.n, &whole)[..]).is_ok());
        let _ = cx.setup(|_| CompressedGraph::try_from(&codec::write_compressed(true, m.n, 1, &w)[..]).is_ok());
        cx.count("images decoded right after the one they were made from", 1);
    }
    let b = codec::write_graph(true, m.n, &e);
    cx.count("images decoded", 1);
    if let Ok(g) = Graph::try_from(&codec::Placed::new(&b)[..]) {
        symmetric(cx, "Graph::try_from", &g, true)?;
    }
    let es: std::collections::BTreeSet<_> = e.into_iter().collect();
    let words: Vec<_> = Model { und: true, n: m.n, e: es }.words().into_iter().collect();
    let b = codec::write_compressed(true, m.n, 1 + cx.rng.below(64) as u8, &words);
    cx.count("images decoded", 1);
    if let Ok(c) = CompressedGraph::try_from(&codec::Placed::new(&b)[..]) {
        ensure!(c.is_undirected(), "CompressedGraph::try_from lost the direction flag");
        for ((bc, br), w) in words.iter().take(64) {
            for bit in 0..64 {
                if w >> bit & 1 == 1 {
                    let (u, v) = (bc * 8 + bit % 8, br * 8 + bit / 8);
                    ensure!(c.does_edge_exist(u, v) == c.does_edge_exist(v, u), "undirected compressed graph accepted from bytes holds edge {}-{} one way only", u, v);
                }
            }
        }
        let g = c.decompress();
        symmetric(cx, "decompress after CompressedGraph::try_from", &g, true)?;
    }
    Ok(())
}

pub fn case(cx: &mut Ctx) -> Res {
    match cx.rng.below(6) {
        0 => return from_matrix(cx),
        1 => return from_bytes(cx),
        _ => {}
    }
    // a chain of ways of obtaining a graph
    let (mut g, mut m) = gen::graph(cx)?;
    let large = m.e.len() > 3000;
    if large && !(64..96).contains(&cx.idx) {
        return Ok(());
    }
    let und = m.und;
    symmetric(cx, "as built", &g, und)?;
    for _ in 0..cx.rng.range(1, 5) {
        match cx.rng.below(7) {
            0 => {
                let b = cx.rng.range(0, 9);
                let t = cx.rng.unit();
                cx.say(|| format!("approximate({}, {})", b, t));
                g = g.approximate(b, t);
                m = symmetric(cx, "approximate", &g, und)?;
            }
            1 => {
                let b = gen::blockdim(&mut cx.rng, cx.dict, m.n);
                cx.say(|| format!("approximate({}, 0)", b));
                g = g.approximate(b, 0.0);
                m = symmetric(cx, "approximate", &g, und)?;
            }
            2 => {
                let l = gen::level(&mut cx.rng).min(if cx.rng.bool() { 4 } else { 255 });
                cx.say(|| format!("compress({}) / decompress", l));
                let c = g.compress(l);
                ensure!(c.is_undirected() == und, "compress: is_undirected() = {} but the source says {}", c.is_undirected(), und);
                for (a, b) in m.e.iter().take(200) {
                    if und {
                        ensure!(c.does_edge_exist(*a, *b) == c.does_edge_exist(*b, *a), "compress: edge {}-{} exists one way only", a, b);
                    }
                }
                let c = if cx.rng.bool() {
                    let b = skip(c.to_bytes(), "no bytes")?;
                    let c2 = skip(CompressedGraph::try_from(&codec::Placed::new(&b)[..]), "image refused")?;
                    ensure!(c2.is_undirected() == und, "CompressedGraph::try_from: direction flag changed");
                    c2
                } else {
                    c.clone()
                };
                ensure!(c.is_undirected() == und, "compressed copy: direction flag changed");
                g = c.decompress();
                m = symmetric(cx, "decompress", &g, und)?;
            }
            3 => {
                cx.say(|| "to_bytes / try_from".into());
                let b = skip(g.to_bytes(), "no bytes")?;
                g = skip(Graph::try_from(&codec::Placed::new(&b)[..]), "image refused")?;
                m = symmetric(cx, "try_from", &g, und)?;
            }
            4 => {
                g = g.clone();
                m = symmetric(cx, "clone", &g, und)?;
            }
            _ => {
                let mut pool: Vec<u64> = m.vertices();
                cx.rng.shuffle(&mut pool);
                pool.truncate(5);
                pool.push(gen::id(&mut cx.rng, cx.dict));
                for _ in 0..cx.rng.range(1, if large { 3 } else { 12 }) {
                    let op = c01::random_op(cx, &m, &pool);
                    cx.say(|| format!("{:?}", op));
                    let old = m.clone();
                    c01::apply(&mut g, &op);
                    m = symmetric(cx, "mutation", &g, und)?;
                    if !und {
                        // a directed graph never gains an edge that was not asked for
                        for (a, b) in m.e.difference(&old.e) {
                            let asked = match &op {
                                c01::Op::Add(x, y) => (*a, *b) == (*x, *y),
                                c01::Op::Vertex(v, Some(l)) => a == v && l.contains(b),
                                _ => false,
                            };
                            ensure!(asked, "directed graph gained {}>{} by {:?}", a, b, op);
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
