//! C19: cost follows the edges; extreme sizes never crash or miscalculate.
use crate::codec;
use crate::ctx::{viol, Ctx, Res};
use crate::gen;
use crate::model::{observe, queries, Model};
use crate::props::c10::Meter;
use graphrox::builder::CompressedGraphBuilder;
use graphrox::error::GraphRoxError;
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};

fn refused(r: &Result<String, GraphRoxError>) -> bool {
    matches!(r, Err(GraphRoxError::CapacityOverflow(_)))
}

const TOP: u64 = u64::MAX;

fn bound(items: usize) -> usize {
    8 * 1024 + 1024 * items
}

fn sparse(cx: &mut Ctx) -> gen::Spec {
    let r = &mut cx.rng;
    let und = r.bool();
    let k = r.range(1, 6);
    let far = |r: &mut crate::rng::Rng| match r.below(5) {
        0 => TOP - 1,
        1 => TOP - 1 - r.below(70),
        2 => (1u64 << r.range(31, 63)) + r.below(3) - 1,
        3 => r.u64() >> r.below(33),
        _ => gen::id(r, cx.dict),
    };
    let mut pool: Vec<u64> = (0..k).map(|_| far(r).min(TOP - 1)).collect();
    pool.push(r.below(9));
    let m = if r.chance(1, 6) { r.range(50, 400) } else { r.range(0, 12) };
    let mut e = vec![];
    for _ in 0..m {
        let j = |r: &mut crate::rng::Rng| {
            let a = *r.pick(&pool);
            if m > 20 { a.saturating_sub(r.below(300)) } else { a }
        };
        e.push((j(r), j(r)));
    }
    let n = e.iter().map(|x: &(u64, u64)| x.0.max(x.1) + 1).max().unwrap_or(0).max(*pool.iter().max().unwrap() + 1);
    gen::Spec { und, n, edges: e, shape: "extreme" }
}

fn meter(cx: &mut Ctx, what: &str, m: &Meter, items: usize) -> Res {
    cx.count("operations metered", 1);
    ensure!(m.peak() <= bound(items), "{} took {} bytes of memory for {} stored items", what, m.peak(), items);
    Ok(())
}

pub fn case(cx: &mut Ctx) -> Res {
    if cx.big() && cx.rng.chance(1, 3) {
        return crate::props::c01::emptied(cx);
    }
    match cx.rng.below(8) {
        0 => return matrices(cx),
        1 => return noid(cx),
        2 => return builder(cx),
        _ => {}
    }
    let s = sparse(cx);
    let want = s.model();
    for (a, b) in &want.e {
        cx.feed(*a);
        cx.feed(*b);
    }
    cx.feed(want.n);
    cx.nontrivial = true;
    cx.say(|| want.brief());
    let mt = Meter::start();
    let mut g = if s.und { Graph::new_undirected() } else { Graph::new_directed() };
    for (a, b) in &s.edges {
        g.add_edge(*a, *b);
    }
    if s.n > 0 {
        g.add_vertex(s.n - 1, None);
    }
    let e = want.e.len();
    meter(cx, "building the graph", &mt, e)?;
    let o = viol(observe(&g))?;
    if let Some(d) = o.diff(&want) {
        bad!("graph with extreme ids: {}", d);
    }
    let mut vs: Vec<u64> = want.vertices().into_iter().rev().take(6).collect();
    vs.extend([0, want.n, TOP, TOP - 1]);
    viol(queries(&g, &want, &vs))?;
    // copies, images
    let mt = Meter::start();
    let c = g.clone();
    meter(cx, "duplicating", &mt, e)?;
    drop(c);
    let mt = Meter::start();
    let Ok(b) = g.to_bytes() else { bad!("to_bytes failed") };
    meter(cx, "saving", &mt, e)?;
    ensure!(b.len() == 26 + 16 * e, "image of {} bytes for {} edges", b.len(), e);
    let mt = Meter::start();
    match Graph::try_from(b.as_slice()) {
        Ok(l) => {
            meter(cx, "loading", &mt, e)?;
            if let Some(d) = viol(observe(&l))?.diff(&want) {
                bad!("loaded graph with extreme ids: {}", d);
            }
        }
        Err(x) => bad!("a saved graph with extreme ids does not load: {}", x),
    }
    // derivations
    for _ in 0..2 {
        let bd = match cx.rng.below(4) {
            0 => want.n / cx.rng.range(1, 50).max(1),
            1 => *cx.rng.pick(&[TOP, TOP - 1, 1 << 63, 1 << 32, (1 << 32) - 1, (1 << 32) + 1, 1 << 31, 1 << 48]),
            _ => gen::blockdim(&mut cx.rng, cx.dict, want.n),
        };
        cx.say(|| format!("pool / approximate by {}", bd));
        cx.feed(bd);
        let eb = bd.clamp(1, want.n.max(1));
        let census = want.census(eb);
        let dim = if want.n == 0 { 0 } else { want.n / eb + (want.n % eb != 0) as u64 };
        let mt = Meter::start();
        let p = g.find_avg_pool_matrix(bd);
        meter(cx, "pooling", &mt, e)?;
        ensure!(p.dimension() == dim && p.entry_count() == census.len() as u64, "pooling {} vertices by {}: dimension {} with {} blocks, expected {} with {}", want.n, bd, p.dimension(), p.entry_count(), dim, census.len());
        for ((c, r), k) in census.iter().take(60) {
            let v = p.get_entry(*c, *r);
            let x = *k as f64 / (eb as f64 * eb as f64);
            ensure!((v - x).abs() <= x * 1e-12, "pooling {} vertices by {}: block ({},{}) is {:e}, expected {:e}", want.n, bd, c, r, v, x);
        }
        if dim > 1 << 20 {
            let mt = Meter::start();
            ensure!(refused(&p.to_string_with_precision(2)), "a text of {} x {} cells was built, or refused with something else than a capacity error", dim, dim);
            meter(cx, "refusing a text", &mt, e)?;
        }
        let t = *cx.rng.pick(&[0.0, 1e-18, 1e-30, 0.5, 1.0]);
        let mt = Meter::start();
        let a = g.approximate(bd, t);
        meter(cx, "approximating", &mt, e)?;
        let ao = viol(observe(&a))?;
        let adim = if bd <= 1 || want.n <= 1 { want.n } else { dim };
        ensure!(ao.n == adim, "approximation of {} vertices by {} has {} vertices, expected {}", want.n, bd, ao.n, adim);
        if t == 0.5 || t == 1.0 || bd <= 1 || eb < 1 << 20 {
            let tt = t.max(1e-18);
            for ((c, r), k) in census.iter().take(60) {
                let x = *k as f64 / (eb as f64 * eb as f64);
                if bd > 1 && want.n > 1 && (x - tt).abs() > 1e-9 * tt {
                    ensure!(ao.has(*c, *r) == (x > tt), "approximation by {} with threshold {:e}: block ({},{}) averaging {:e} is {}", bd, tt, c, r, x, ao.has(*c, *r));
                }
            }
        }
        cx.count("extreme block dimensions", 1);
    }
    let l = gen::level(&mut cx.rng).min(if cx.rng.bool() { 2 } else { 255 });
    cx.say(|| format!("compress({})", l));
    let words = want.words();
    let mt = Meter::start();
    let c = g.compress(l);
    meter(cx, "compressing", &mt, e)?;
    compressed(cx, &c, &codec::CModel {
        und: want.und,
        n: want.n,
        level: l.clamp(1, 64),
        w: words.into_iter().filter(|x| x.1.count_ones() >= l.clamp(1, 64) as u32).collect(),
    })?;
    // texts
    if want.n > 1 << 20 {
        let mt = Meter::start();
        ensure!(refused(&g.matrix_string()), "a text of {} x {} cells was built, or refused with something else than a capacity error", want.n, want.n);
        meter(cx, "refusing a text", &mt, e)?;
        cx.count("texts refused", 1);
    }
    // take it apart again
    for (a, b) in &s.edges {
        g.delete_edge(*a, *b);
    }
    ensure!(g.edge_count() == 0 && g.vertex_count() == want.n, "after deleting every edge: {} edges, {} vertices (expected 0 and {})", g.edge_count(), g.vertex_count(), want.n);
    Ok(())
}

fn compressed(cx: &mut Ctx, c: &CompressedGraph, m: &codec::CModel) -> Res {
    let ones = m.edge_count() as usize;
    let blocks = m.w.len();
    ensure!(c.vertex_count() == m.n && c.edge_count() == ones as u64, "compressed graph: {} vertices and {} edges, expected {} and {}", c.vertex_count(), c.edge_count(), m.n, ones);
    for ((x, y), w) in &m.w {
        ensure!(c.get_compressed_matrix_entry(*x, *y) == *w, "block ({},{}) reads {:#x}, expected {:#x}", x, y, c.get_compressed_matrix_entry(*x, *y), w);
    }
    for v in [0, m.n.wrapping_sub(1), m.n, TOP - 1, TOP] {
        for w in [0, m.n.wrapping_sub(1), m.n, TOP - 1, TOP] {
            let want = m.w.get(&(v / 8, w / 8)).copied().unwrap_or(0) >> (8 * (w % 8) + v % 8) & 1 == 1;
            ensure!(c.does_edge_exist(v, w) == want, "compressed edge {}>{} reads {}", v, w, !want);
        }
    }
    let mt = Meter::start();
    let Ok(b) = c.to_bytes() else { bad!("saving a compressed graph failed") };
    meter(cx, "saving a compressed graph", &mt, blocks)?;
    ensure!(b.len() == 42 + 24 * blocks, "compressed image of {} bytes for {} blocks", b.len(), blocks);
    let mt = Meter::start();
    ensure!(CompressedGraph::try_from(b.as_slice()).is_ok(), "a saved compressed graph of {} vertices does not load", m.n);
    meter(cx, "loading a compressed graph", &mt, blocks)?;
    let mt = Meter::start();
    let d = c.decompress();
    meter(cx, "decompressing", &mt, ones)?;
    if let Some(x) = viol(observe(&d))?.diff(&Model { und: m.und, n: m.n, e: m.edges() }) {
        bad!("decompressed: {}", x);
    }
    let mt = Meter::start();
    let k = c.clone();
    meter(cx, "duplicating a compressed graph", &mt, blocks)?;
    drop(k);
    if codec::block_dim(m.n) > 1 << 20 {
        let mt = Meter::start();
        ensure!(refused(&c.matrix_string()), "a text of {0} x {0} words was built, or refused with something else than a capacity error", codec::block_dim(m.n));
        meter(cx, "refusing a text", &mt, blocks)?;
        cx.count("texts refused", 1);
    }
    cx.count("compressed graphs checked", 1);
    Ok(())
}

fn builder(cx: &mut Ctx) -> Res {
    let mut m = crate::props::c08::random_cmodel(cx);
    let n = *cx.rng.pick(&[TOP, TOP - 1, TOP - 7, TOP - 8, 1 << 63, 1 << 61, (1 << 61) + 1]);
    let shift = codec::block_dim(n).saturating_sub(codec::block_dim(m.n.max(1)));
    if m.n < 8 || m.n > 4096 || m.und {
        m.w.clear();
    }
    // move the blocks to the far corner, dropping bits outside the vertex count
    let mut w = std::collections::BTreeMap::new();
    for ((c, r), x) in &m.w {
        let (c, r) = (c + shift, r + shift);
        let mut x = *x;
        for bit in 0..64u128 {
            if c as u128 * 8 + bit % 8 >= n as u128 || r as u128 * 8 + bit / 8 >= n as u128 {
                x &= !(1u64 << bit);
            }
        }
        if x != 0 {
            w.insert((c, r), x);
        }
    }
    let m = codec::CModel { n, w, ..m };
    cx.feed(n);
    for (k, v) in &m.w {
        cx.feed(k.0);
        cx.feed(*v);
    }
    cx.nontrivial = true;
    cx.say(|| format!("blocks {:x?} of a {}-vertex graph", m.w.iter().take(5).collect::<Vec<_>>(), n));
    let mt = Meter::start();
    let mut b = CompressedGraphBuilder::new(m.und, m.n, m.level);
    for ((c, r), w) in &m.w {
        b.add_compressed_matrix_entry(*w, *c, *r, None);
    }
    let c = unsafe { b.finish() };
    meter(cx, "building a compressed graph", &mt, m.w.len())?;
    compressed(cx, &c, &m)
}

/// The id 2^64-1 cannot be represented: it is ignored, and nothing else changes.
fn noid(cx: &mut Ctx) -> Res {
    let s = sparse(cx);
    let (mut g, mut m) = gen::graph_of(cx, &s)?;
    for _ in 0..cx.rng.range(1, 10) {
        let v = if cx.rng.bool() { *cx.rng.pick(&[0, 1, m.n, m.n.wrapping_sub(1), TOP - 1]) } else { m.vertices().first().copied().unwrap_or(0) };
        match cx.rng.below(6) {
            0 => g.add_edge(TOP, v),
            1 => g.add_edge(v, TOP),
            2 => g.add_edge(TOP, TOP),
            3 => g.delete_edge(TOP, v),
            4 => g.add_vertex(TOP, if cx.rng.bool() { None } else { Some(&[3, TOP]) }),
            _ => {
                // the representable part of the list counts; v itself may or may not be created
                // when nothing representable is listed
                let mut l: Vec<u64> = (0..cx.rng.below(5))
                    .map(|_| match cx.rng.below(4) {
                        0 => m.n.min(TOP - 1),
                        1 => cx.rng.below(60),
                        2 => gen::id(&mut cx.rng, cx.dict),
                        _ => v.min(TOP - 1),
                    })
                    .collect();
                if v == TOP || (l.is_empty() && v >= m.n) {
                    continue;
                }
                m.add_vertex(v, Some(&l));
                for _ in 0..cx.rng.range(1, 3) {
                    let k = cx.rng.us(l.len() + 1);
                    l.insert(k, TOP);
                }
                cx.say(|| format!("add_vertex({}, {:?})", v, l));
                g.add_vertex(v, Some(&l));
            }
        }
        cx.count("unrepresentable ids offered", 1);
        let o = viol(observe(&g))?;
        if let Some(d) = o.diff(&m) {
            bad!("offering the id 2^64-1 changed the graph: {}", d);
        }
        ensure!(g.edge_count() == m.e.len() as u64, "offering the id 2^64-1 changed the edge count");
        ensure!(!g.does_edge_exist(TOP, v) && g.get_vertex_out_degree(TOP) == 0 && g.get_vertex_in_degree(TOP) == 0, "the id 2^64-1 has edges");
    }
    let (x, y) = (gen::id(&mut cx.rng, cx.dict), gen::id(&mut cx.rng, cx.dict));
    let n = x.max(y) + 1;
    let mut a = CsrAdjacencyMatrix::new();
    a.set_entry(1, x, y);
    a.set_entry(1, TOP, y);
    a.set_entry(1, x, TOP);
    a.set_entry(0, TOP, TOP);
    a.set_entry(0, x, TOP);
    a.zero_entry(TOP, y);
    ensure!(a.dimension() == n && a.entry_count() == 1 && a.get_entry(x, y) == 1 && a.get_entry(TOP, y) == 0 && a.get_entry(x, TOP) == 0, "adjacency matrix took a coordinate of 2^64-1");
    let mut q: CsrSquareMatrix<i32> = CsrSquareMatrix::new();
    q.set_entry(7, x, y);
    q.set_entry(7, TOP, y);
    q.set_entry(0, x, TOP);
    q.increment_entry(x, TOP);
    q.increment_entry(TOP, TOP);
    q.set_entry(0, TOP, TOP);
    ensure!(q.dimension() == n && q.entry_count() == 1 && q.get_entry(x, y) == 7 && q.get_entry(x, TOP) == 0, "square matrix took a coordinate of 2^64-1");
    Ok(())
}

/// Texts that cannot be built: far too many cells, or far too many decimals.
fn matrices(cx: &mut Ctx) -> Res {
    let dim = match cx.rng.below(4) {
        0 => TOP - 1,
        1 => 1u64 << cx.rng.range(24, 63),
        2 => gen::id(&mut cx.rng, cx.dict),
        _ => cx.rng.range(0, 6),
    };
    let prec = match cx.rng.below(5) {
        0 => usize::MAX - cx.rng.below(5) as usize,
        1 => usize::MAX / 2,
        2 => 1usize << cx.rng.range(31, 63),
        _ => cx.rng.below(5) as usize,
    };
    if dim < 1 << 20 && dim > 6 {
        return Ok(());
    }
    cx.feed(dim);
    cx.feed(prec as u64);
    cx.nontrivial = true;
    cx.say(|| format!("texts of matrices with dimension {} and {} decimals", dim + 1, prec));
    let mut q: CsrSquareMatrix<f64> = CsrSquareMatrix::new();
    let mut i: CsrSquareMatrix<i64> = CsrSquareMatrix::new();
    let mut a = CsrAdjacencyMatrix::new();
    let mt = Meter::start();
    q.set_entry(0.5, dim, dim);
    i.set_entry(-5, dim, 0);
    a.set_entry(1, dim, 0);
    ensure!(q.dimension() == dim + 1 && i.dimension() == dim + 1 && a.dimension() == dim + 1, "dimension after a write at {}", dim);
    let bad_text = dim > 6 || prec > 1 << 30;
    let (r1, r2) = (q.to_string_with_precision(prec), i.to_string_with_precision(prec));
    if bad_text {
        ensure!(refused(&r1) && refused(&r2), "a text with {} x {} cells of {} decimals was built, or refused with something else than a capacity error", dim + 1, dim + 1, prec);
        cx.count("texts refused", 2);
        if dim > 6 {
            ensure!(refused(&a.try_to_string()), "a text with {} x {} cells was built, or refused with something else than a capacity error", dim + 1, dim + 1);
        }
        meter(cx, "refusing texts", &mt, 3)?;
    } else {
        ensure!(r1.is_ok() && r2.is_ok() && a.try_to_string().is_ok(), "a small text was refused");
    }
    Ok(())
}
