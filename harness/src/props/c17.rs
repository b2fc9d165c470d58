//! C17: copies and derived values are independent; queries change nothing.
use crate::codec;
use crate::ctx::{skip, viol, Ctx, Fail, Res};
use crate::gen;
use crate::hread;
use crate::model::{observe, queries, Model};
use crate::props::{c01, c04, c06};
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use graphrox_c as capi;

enum Thing {
    G(Graph),
    C(CompressedGraph),
    P(CsrSquareMatrix<f64>),
    A(CsrAdjacencyMatrix),
    /// A graph behind a C handle (freed on drop).
    H(capi::GphrxGraph),
    HC(capi::GphrxCompressedGraph),
    HP(capi::GphrxCsrSquareMatrix),
}
impl Drop for Thing {
    fn drop(&mut self) {
        unsafe {
            match self {
                Thing::H(h) => capi::free_gphrx_graph(*h),
                Thing::HC(h) => capi::free_gphrx_compressed_graph(*h),
                Thing::HP(h) => capi::free_gphrx_matrix(*h),
                _ => {}
            }
        }
    }
}

/// Everything observable about a value, in a canonical order.
#[derive(PartialEq, Clone, Debug)]
struct Snap {
    head: Vec<u64>,
    body: Vec<(u64, u64, u64)>,
    text: String,
}

fn snap(t: &Thing, probes: &[u64]) -> Snap {
    unsafe {
        match t {
            Thing::G(g) => gsnap(g, probes),
            Thing::H(h) => hsnap(*h, probes),
            Thing::C(c) => csnap(c, probes),
            Thing::HC(h) => hcsnap(*h, probes),
            Thing::P(p) => psnap(p),
            Thing::HP(h) => hpsnap(*h),
            Thing::A(a) => {
                let mut body: Vec<_> = a.into_iter().map(|(c, r)| (c, r, 1)).collect();
                body.sort_unstable();
                let mut head = vec![a.dimension(), a.entry_count()];
                for p in probes {
                    head.push(a.col_nonzero_entry_count(*p));
                    head.push(a.row_nonzero_entry_count(*p));
                }
                Snap { head, body, text: if a.dimension() < 20 { a.try_to_string().unwrap_or_default() } else { String::new() } }
            }
        }
    }
}
fn gsnap(g: &Graph, probes: &[u64]) -> Snap {
    let mut body: Vec<_> = g.into_iter().take(2_000_000).map(|(a, b)| (a, b, 1)).collect();
    body.sort_unstable();
    let mut head = vec![g.is_undirected() as u64, g.vertex_count(), g.edge_count()];
    for p in probes {
        head.push(g.get_vertex_in_degree(*p));
        head.push(g.get_vertex_out_degree(*p));
        let mut v = g.get_vertex_in_edges(*p);
        v.sort_unstable();
        head.push(v.iter().fold(v.len() as u64, |a, x| a.wrapping_mul(31).wrapping_add(*x)));
        let mut v = g.get_vertex_out_edges(*p);
        v.sort_unstable();
        head.push(v.iter().fold(v.len() as u64, |a, x| a.wrapping_mul(31).wrapping_add(*x)));
        for q in probes {
            head.push(g.does_edge_exist(*p, *q) as u64);
        }
    }
    Snap { head, body, text: if g.vertex_count() < 20 { g.matrix_string().unwrap_or_default() } else { String::new() } }
}
fn csnap(c: &CompressedGraph, probes: &[u64]) -> Snap {
    let mut head = vec![c.is_undirected() as u64, c.vertex_count(), c.edge_count(), c.compression_level() as u64];
    for p in probes {
        for q in probes {
            head.push(c.does_edge_exist(*p, *q) as u64);
            head.push(c.get_compressed_matrix_entry(p / 8, q / 8));
        }
    }
    // contents through the saved image (record order is free)
    let body = hread::blocks_of(&c.to_bytes().unwrap_or_default());
    Snap { head, body, text: if c.vertex_count() < 100 { c.matrix_string().unwrap_or_default() } else { String::new() } }
}
fn psnap(p: &CsrSquareMatrix<f64>) -> Snap {
    let mut body: Vec<_> = p.into_iter().map(|(v, c, r)| (c, r, v.to_bits())).collect();
    body.sort_unstable();
    Snap { head: vec![p.dimension(), p.entry_count()], body, text: if p.dimension() < 20 { p.to_string_with_precision(3).unwrap_or_default() } else { String::new() } }
}

fn digest(v: Vec<u64>) -> u64 {
    v.iter().fold(v.len() as u64, |a, x| a.wrapping_mul(31).wrapping_add(*x))
}
// The same answers, through the C interface.
unsafe fn hsnap(h: capi::GphrxGraph, probes: &[u64]) -> Snap {
    let body = hread::edges(h).into_iter().map(|(a, b)| (a, b, 1)).collect();
    let n = capi::gphrx_vertex_count(h);
    let mut head = vec![(capi::gphrx_is_undirected(h) != 0) as u64, n, capi::gphrx_edge_count(h)];
    for p in probes {
        head.push(capi::gphrx_get_vertex_in_degree(h, *p));
        head.push(capi::gphrx_get_vertex_out_degree(h, *p));
        head.push(digest(hread::ins(h, *p)));
        head.push(digest(hread::outs(h, *p)));
        for q in probes {
            head.push((capi::gphrx_does_edge_exist(h, *p, *q) != 0) as u64);
        }
    }
    Snap { head, body, text: if n < 20 { hread::take_text(capi::gphrx_matrix_string(h)).unwrap_or_default() } else { String::new() } }
}
unsafe fn hcsnap(h: capi::GphrxCompressedGraph, probes: &[u64]) -> Snap {
    let n = capi::gphrx_compressed_graph_vertex_count(h);
    let mut head = vec![
        (capi::gphrx_compressed_graph_is_undirected(h) != 0) as u64,
        n,
        capi::gphrx_compressed_graph_edge_count(h),
        capi::gphrx_compressed_graph_compression_level(h) as u64,
    ];
    for p in probes {
        for q in probes {
            head.push((capi::gphrx_compressed_graph_does_edge_exist(h, *p, *q) != 0) as u64);
            head.push(capi::gphrx_get_compressed_matrix_entry(h, p / 8, q / 8));
        }
    }
    let body = hread::blocks_of(&hread::cbytes(h));
    Snap { head, body, text: if n < 100 { hread::take_text(capi::gphrx_compressed_graph_matrix_string(h)).unwrap_or_default() } else { String::new() } }
}
unsafe fn hpsnap(h: capi::GphrxCsrSquareMatrix) -> Snap {
    let dim = capi::gphrx_matrix_dimension(h);
    let text = if dim < 20 { hread::take_text(capi::gphrx_matrix_to_string_with_precision(h, 3)).unwrap_or_default() } else { String::new() };
    Snap { head: vec![dim, capi::gphrx_matrix_entry_count(h)], body: hread::cells(h), text }
}

fn kind(t: &Thing) -> &'static str {
    match t {
        Thing::G(_) => "graph",
        Thing::C(_) => "compressed graph",
        Thing::P(_) => "pooled matrix",
        Thing::A(_) => "adjacency matrix",
        Thing::H(_) => "C graph",
        Thing::HC(_) => "C compressed graph",
        Thing::HP(_) => "C matrix",
    }
}

/// What was derived from a value when it was first asked, and with which parameter.
#[derive(Clone)]
struct Asked {
    b: u64,
    answers: Vec<(&'static str, Snap)>,
}

/// Ask it for everything that can be derived from it.
fn interrogate(t: &Thing, b: u64, probes: &[u64], r: &mut crate::rng::Rng) -> Asked {
    let mut answers = vec![];
    let mut put = |what, t: Thing| answers.push((what, snap(&t, probes)));
    unsafe {
        match t {
            Thing::G(g) => {
                put("approximate", Thing::G(g.approximate(b, 0.2)));
                put("find_avg_pool_matrix", Thing::P(g.find_avg_pool_matrix(b)));
                put("compress", Thing::C(g.compress(b as u8)));
                if let Some(l) = g.to_bytes().ok().and_then(|b| Graph::try_from(&codec::Placed::new(&b)[..]).ok()) {
                    put("saved and loaded", Thing::G(l));
                }
                put("clone", Thing::G(g.clone()));
                for (a, b) in g {
                    if g.does_edge_exist(b, a) && r.chance(1, 50) {
                        break;
                    }
                }
            }
            Thing::C(c) => {
                put("decompress", Thing::G(c.decompress()));
                if let Some(l) = c.to_bytes().ok().and_then(|b| CompressedGraph::try_from(&codec::Placed::new(&b)[..]).ok()) {
                    put("saved and loaded", Thing::C(l));
                }
                put("clone", Thing::C(c.clone()));
            }
            Thing::P(p) => {
                if p.dimension() < 100 {
                    let text = p.to_string_with_precision(1).unwrap_or_default();
                    answers.push(("text", Snap { head: vec![], body: vec![], text }));
                }
                let mut put = |what, t: Thing| answers.push((what, snap(&t, probes)));
                put("clone", Thing::P(p.clone()));
            }
            Thing::A(a) => {
                put("clone", Thing::A(a.clone()));
                put("directed_from", Thing::G(Graph::directed_from(a.clone())));
                let _ = Graph::undirected_from(a.clone());
            }
            Thing::H(h) => {
                let mut len = 0usize;
                let l = capi::gphrx_get_edge_list(*h, &mut len);
                capi::free_gphrx_edge_list(l, len);
                for p in probes.iter().take(3) {
                    let l = capi::gphrx_get_vertex_in_edges_list(*h, *p, &mut len);
                    capi::free_gphrx_vertex_list(l, len);
                    let l = capi::gphrx_get_vertex_out_edges_list(*h, *p, &mut len);
                    capi::free_gphrx_vertex_list(l, len);
                }
                let l = capi::gphrx_to_bytes(*h, &mut len);
                capi::free_gphrx_bytes_buffer(l, len);
                if capi::gphrx_vertex_count(*h) < 40 {
                    capi::free_gphrx_string_buffer(capi::gphrx_matrix_string(*h));
                }
                put("gphrx_approximate", Thing::H(capi::gphrx_approximate(*h, b, 0.1)));
                put("gphrx_find_avg_pool_matrix", Thing::HP(capi::gphrx_find_avg_pool_matrix(*h, b)));
                put("gphrx_compress", Thing::HC(capi::gphrx_compress(*h, b as u8)));
                put("gphrx_duplicate", Thing::H(capi::gphrx_duplicate(*h)));
            }
            Thing::HC(h) => {
                let mut len = 0usize;
                let l = capi::gphrx_compressed_graph_to_bytes(*h, &mut len);
                capi::free_gphrx_bytes_buffer(l, len);
                put("gphrx_decompress", Thing::H(capi::gphrx_decompress(*h)));
            }
            Thing::HP(h) => {
                let mut len = 0usize;
                let l = capi::gphrx_matrix_get_entry_list(*h, &mut len);
                capi::free_gphrx_matrix_entry_list(l, len);
                if capi::gphrx_matrix_dimension(*h) < 40 {
                    capi::free_gphrx_string_buffer(capi::gphrx_matrix_to_string_with_precision(*h, 4));
                }
                put("gphrx_matrix_duplicate", Thing::HP(capi::gphrx_matrix_duplicate(*h)));
            }
        }
    }
    Asked { b, answers }
}

/// The C functions give the same answer as the library, for the same graph.
unsafe fn same_in_c(cx: &mut Ctx, h: capi::GphrxGraph, m: &Model, b: u64, t: f64, l: u8) -> Res {
    let o = Model { und: capi::gphrx_is_undirected(h) != 0, n: capi::gphrx_vertex_count(h), e: hread::edges(h).into_iter().collect() };
    if o.diff(m).is_some() {
        return Err(Fail::Skip("the C graph is not what it should be"));
    }
    let p = Thing::HP(capi::gphrx_find_avg_pool_matrix(h, b));
    let c = Thing::HC(capi::gphrx_compress(h, l));
    let a = Thing::H(capi::gphrx_approximate(h, b, t));
    // a graph with the same content that nobody was ever asked about
    let mut g = c01::new(m.und);
    if m.n > 0 {
        g.add_vertex(m.n - 1, None);
    }
    for (u, v) in &m.e {
        g.add_edge(*u, *v);
    }
    let probes = [0, 1, m.n / 2, m.n.saturating_sub(1)];
    for (x, y) in [(p, Thing::P(g.find_avg_pool_matrix(b))), (c, Thing::C(g.compress(l))), (a, Thing::G(g.approximate(b, t)))] {
        let (sx, sy) = (snap(&x, &probes), snap(&y, &probes));
        ensure!(sx == sy, "{} of a C graph differs from that of an equal graph: {}", kind(&x), differ(&sx, &sy));
    }
    let own = hread::bytes(h);
    let fresh = skip(g.to_bytes(), "no bytes")?;
    let (mut x, mut y) = (own, fresh);
    ensure!(x.len() == y.len(), "the C graph saves {} bytes, an equal graph {}", x.len(), y.len());
    for b in [&mut x, &mut y] {
        let mut recs: Vec<Vec<u8>> = b[26..].chunks_exact(16).map(|c| c.to_vec()).collect();
        recs.sort_unstable();
        b.truncate(26);
        b.extend(recs.concat());
    }
    ensure!(x == y, "the C graph saves other bytes than an equal graph");
    cx.count("answers compared after a change", 4);
    Ok(())
}

/// The same questions before and after changes in place: each answer belongs to the graph as
/// it is when asked, and nothing remembered from before shows.
fn again(cx: &mut Ctx) -> Res {
    let s = if cx.rng.chance(1, 3) {
        gen::blocky(&mut cx.rng, cx.dict, 8, &[3, 8, 32])
    } else {
        gen::edges(&mut cx.rng, cx.dict)
    };
    if s.edges.len() > 3000 {
        return Ok(());
    }
    let (mut g, mut m) = gen::graph_of(cx, &s)?;
    let b = if cx.rng.bool() { cx.rng.range(2, 9) } else { gen::blockdim(&mut cx.rng, cx.dict, m.n) };
    let l = if cx.rng.bool() { 1 } else { gen::level(&mut cx.rng).min(9) };
    let t = *cx.rng.pick(&[0.0, 0.01, 0.1, 0.3, 0.5]);
    cx.feed(b);
    cx.feed(l as u64);
    cx.say(|| format!("asked again and again: pool {}, approximate {} {}, compress {}", b, b, t, l));
    let exact = (b as u128).pow(2) < 1 << 53;
    let c_side = cx.rng.chance(1, 3);
    let h = if c_side { Some(Thing::H(skip(unsafe { hread::load(&skip(g.to_bytes(), "no bytes")?) }.ok_or(()), "refused")?)) } else { None };
    let ask = |cx: &mut Ctx, g: &Graph, m: &Model, h: &Option<Thing>| -> Res {
        if let Some(Thing::H(h)) = h {
            return unsafe { same_in_c(cx, *h, m, b, t, l) };
        }
        let mut vs: Vec<u64> = m.vertices();
        vs.truncate(6);
        vs.push(m.n);
        viol(queries(g, m, &vs))?;
        let eb = b.clamp(1, m.n.max(1));
        c04::pool_check(cx, g, m, b)?;
        c04::one(cx, g, m, b, t, &m.census(eb), exact)?;
        c06::compress_check(cx, g, m, vec![l])?;
        let image = skip(g.to_bytes(), "no bytes")?;
        match crate::codec::read_graph(&image) {
            Ok(r) => {
                if let Some(d) = r.diff(m) {
                    bad!("the saved image is of another graph: {}", d);
                }
            }
            Err(_) => bad!("the saved image is unreadable"),
        }
        if m.n <= 24 && m.n > 0 {
            let want = super::c12::render(m.n, "0", &m.e.iter().map(|k| (*k, "1".to_string())).collect());
            ensure!(g.matrix_string().ok() == Some(want), "the text is of another graph");
        }
        cx.count("answers compared after a change", 5);
        Ok(())
    };
    // wrong from the start is somebody else's business
    if ask(cx, &g, &m, &h).is_err() {
        return Err(Fail::Skip("wrong before anything changed"));
    }
    let mut h = h;
    for round in 0..cx.rng.range(1, 5) {
        let (old_g, old_m) = (g.clone(), m.clone());
        let how = if !cfg!(miri) && cx.rng.chance(1, 30) { 9 } else { cx.rng.below(6) };
        let mut ops: Vec<c01::Op> = vec![];
        match how {
            // as many edges and vertices as before
            0..=2 => {
                if !gen::swap(cx, &mut g, &mut m) {
                    break;
                }
                ops.extend(old_m.e.difference(&m.e).map(|x| c01::Op::Del(x.0, x.1)));
                ops.extend(m.e.difference(&old_m.e).map(|x| c01::Op::Add(x.0, x.1)));
            }
            // another graph takes its place
            3 => {
                let (mut g2, mut m2) = (g.clone(), m.clone());
                if !gen::swap(cx, &mut g2, &mut m2) {
                    break;
                }
                ops.extend(m.e.difference(&m2.e).map(|x| c01::Op::Del(x.0, x.1)));
                ops.extend(m2.e.difference(&m.e).map(|x| c01::Op::Add(x.0, x.1)));
                g = g2;
                m = m2;
            }
            // very many changes
            9 => {
                let mut pool: Vec<u64> = m.vertices();
                pool.truncate(5);
                pool.extend([0, 1]);
                let n = c01::round_trip(&mut cx.rng);
                ops = c01::toggles(&mut cx.rng, &m, &pool, n);
                for op in &ops {
                    c01::apply(&mut g, op);
                    c01::mirror(&mut m, op);
                }
                cx.say(|| format!("{} changes", n));
                cx.count("long runs of changes between the same questions", 1);
            }
            _ => {
                let mut pool: Vec<u64> = m.vertices();
                pool.truncate(6);
                pool.push(m.n);
                pool.retain(|v| *v != u64::MAX);
                pool.push(0);
                let op = c01::random_op(cx, &m, &pool);
                cx.say(|| format!("{:?}", op));
                c01::apply(&mut g, &op);
                c01::mirror(&mut m, &op);
                ops.push(op);
            }
        }
        if let Some(Thing::H(h)) = &h {
            for op in &ops {
                unsafe { capply(*h, op) };
            }
        }
        cx.count("mutations", 1);
        let o = cx.setup(|_| observe(&g)).map_err(|_| Fail::Skip("unreadable"))?;
        if o.diff(&m).is_some() {
            return Err(Fail::Skip("changed graph is not what it should be"));
        }
        ask(cx, &g, &m, &h).map_err(|e| c01::note(e, || format!("asked again after change {}", round + 1)))?;
        // the copy from before the change still answers as before
        if !c_side && cx.rng.bool() {
            ask(cx, &old_g, &old_m, &None).map_err(|e| c01::note(e, || "a copy made before the change".into()))?;
            if cx.rng.bool() {
                g = old_g;
                m = old_m;
            }
        } else if cx.rng.chance(1, 6) {
            h = None;
        }
    }
    cx.nontrivial = true;
    cx.count("families", 1);
    Ok(())
}

unsafe fn capply(h: capi::GphrxGraph, op: &c01::Op) {
    match op {
        c01::Op::Add(a, b) => capi::gphrx_add_edge(h, *a, *b),
        c01::Op::Del(a, b) => capi::gphrx_delete_edge(h, *a, *b),
        c01::Op::Vertex(v, l) => {
            let l = l.as_deref().unwrap_or(&[]);
            capi::gphrx_add_vertex(h, *v, l.as_ptr(), l.len())
        }
    }
}

pub fn case(cx: &mut Ctx) -> Res {
    if cx.rng.chance(1, 4) {
        return again(cx);
    }
    let mut s = gen::any(cx);
    let large = s.shape.contains("large") || s.edges.len() > 60_000;
    if !large {
        s.edges.truncate(300);
    }
    let (g, m) = gen::graph_of(cx, &s)?;
    let mut probes: Vec<u64> = m.vertices();
    cx.rng.shuffle(&mut probes);
    probes.truncate(4);
    probes.push(gen::id(&mut cx.rng, cx.dict));
    probes.push(m.n);
    probes.sort_unstable();
    probes.dedup();
    let mut pool = probes.clone();
    pool.retain(|v| *v != u64::MAX);
    let mut family: Vec<Thing> = vec![Thing::G(g)];
    if !large && cx.rng.bool() {
        // a graph that has nothing to do with the first
        let mut s = gen::edges(&mut cx.rng, cx.dict);
        s.edges.truncate(100);
        cx.say(|| "a stranger:".into());
        family.push(Thing::G(gen::graph_of(cx, &s)?.0));
        cx.count("strangers", 1);
    }
    let mut snaps: Vec<Snap> = family.iter().map(|t| snap(t, &probes)).collect();
    let mut asked: Vec<Option<Asked>> = family.iter().map(|_| None).collect();
    let mut steps = vec![];
    for _ in 0..if large { cx.rng.range(4, 8) } else { cx.rng.range(4, 30) } {
        let k = cx.rng.us(family.len());
        let act = cx.rng.below(12);
        cx.feed(act * 64 + k as u64);
        let from = kind(&family[k]);
        let mut fresh: Option<Thing> = None;
        let mut touched = None;
        let mut known = None;
        let what;
        match act {
            // derive
            0..=3 if family.len() < 9 => {
                let sub = cx.rng.below(6);
                let b = gen::blockdim(&mut cx.rng, cx.dict, 40);
                unsafe {
                    fresh = Some(match &family[k] {
                        Thing::G(g) => match sub {
                            0 | 1 => { what = "clone".into(); Thing::G(g.clone()) }
                            2 => { what = format!("approximate({})", b); Thing::G(g.approximate(b, 0.1)) }
                            3 => { what = "compress".into(); Thing::C(g.compress((b % 4) as u8)) }
                            4 => { what = format!("pool({})", b); Thing::P(g.find_avg_pool_matrix(b)) }
                            _ => {
                                what = "save and load".into();
                                let in_c = cx.rng.bool();
                                match g.to_bytes().ok().and_then(|b| if in_c { hread::load(&b).map(Thing::H) } else { Graph::try_from(&codec::Placed::new(&b)[..]).ok().map(Thing::G) }) {
                                    Some(t) => t,
                                    None => continue,
                                }
                            }
                        },
                        Thing::C(c) => match sub {
                            0 | 1 => { what = "clone".into(); Thing::C(c.clone()) }
                            2 => {
                                what = "save and load".into();
                                let in_c = cx.rng.bool();
                                match c.to_bytes().ok().and_then(|b| if in_c { hread::cload(&b).map(Thing::HC) } else { CompressedGraph::try_from(&codec::Placed::new(&b)[..]).ok().map(Thing::C) }) {
                                    Some(t) => t,
                                    None => continue,
                                }
                            }
                            _ => { what = "decompress".into(); Thing::G(c.decompress()) }
                        },
                        Thing::P(p) => { what = "clone".into(); Thing::P(p.clone()) }
                        Thing::A(a) => match sub {
                            0 => { what = "clone".into(); Thing::A(a.clone()) }
                            _ => { what = "directed_from(clone)".into(); Thing::G(Graph::directed_from(a.clone())) }
                        },
                        Thing::H(h) => match sub {
                            0 | 1 => { what = "gphrx_duplicate".into(); Thing::H(capi::gphrx_duplicate(*h)) }
                            2 => { what = format!("gphrx_approximate({})", b); Thing::H(capi::gphrx_approximate(*h, b, 0.1)) }
                            3 => { what = "gphrx_compress".into(); Thing::HC(capi::gphrx_compress(*h, (b % 4) as u8)) }
                            _ => { what = format!("gphrx_find_avg_pool_matrix({})", b); Thing::HP(capi::gphrx_find_avg_pool_matrix(*h, b)) }
                        },
                        Thing::HC(h) => match sub {
                            0 | 1 => { what = "gphrx_compressed_graph_duplicate".into(); Thing::HC(capi::gphrx_compressed_graph_duplicate(*h)) }
                            _ => { what = "gphrx_decompress".into(); Thing::H(capi::gphrx_decompress(*h)) }
                        },
                        Thing::HP(h) => { what = "gphrx_matrix_duplicate".into(); Thing::HP(capi::gphrx_matrix_duplicate(*h)) }
                    });
                }
                // a copy equals its source at the moment of copying
                if what.contains("clone") && !what.contains("from") || what.contains("duplicate") || what.contains("load") {
                    let a = snap(fresh.as_ref().unwrap(), &probes);
                    ensure!(a == snaps[k], "{} of a {} differs from its source: {}", what, from, differ(&a, &snaps[k]));
                    cx.count("copies compared with their source", 1);
                    if std::mem::discriminant(fresh.as_ref().unwrap()) == std::mem::discriminant(&family[k]) {
                        known = asked[k].clone();
                    }
                }
            }
            // mutate
            4..=7 => {
                let gm = |g: &Graph| Model { und: g.is_undirected(), n: g.vertex_count(), e: g.into_iter().take(500).collect() };
                match &mut family[k] {
                    Thing::G(g) => {
                        let op = c01::random_op(cx, &gm(g), &pool);
                        what = format!("{:?}", op);
                        c01::apply(g, &op);
                    }
                    Thing::H(h) => unsafe {
                        let gm = Model { und: capi::gphrx_is_undirected(*h) != 0, n: capi::gphrx_vertex_count(*h), e: hread::edges(*h).into_iter().take(500).collect() };
                        let op = c01::random_op(cx, &gm, &pool);
                        what = format!("C {:?}", op);
                        capply(*h, &op);
                    },
                    Thing::P(p) => {
                        let (c, r) = (*cx.rng.pick(&pool), *cx.rng.pick(&pool));
                        what = format!("matrix write at ({},{})", c, r);
                        match cx.rng.below(3) {
                            0 => p.set_entry(0.5, c, r),
                            1 => p.zero_entry(c, r),
                            _ => p.increment_entry(c, r),
                        }
                    }
                    Thing::A(a) => {
                        let (c, r) = (*cx.rng.pick(&pool), *cx.rng.pick(&pool));
                        what = format!("adjacency write at ({},{})", c, r);
                        if cx.rng.bool() {
                            a.set_entry(1, c, r)
                        } else {
                            a.zero_entry(c, r)
                        }
                    }
                    _ => continue,
                }
                touched = Some(k);
                cx.count("mutations", 1);
            }
            // drop one
            8 if family.len() > 1 => {
                what = format!("drop {}", from);
                drop(family.swap_remove(k));
                snaps.swap_remove(k);
                asked.swap_remove(k);
            }
            // ask
            _ => {
                what = "queries".into();
                let b = asked[k].as_ref().map_or(cx.rng.range(0, 10), |a| a.b);
                let now = interrogate(&family[k], b, &probes, &mut cx.rng);
                cx.count("interrogations", 1);
                if let Some(before) = &asked[k] {
                    for (x, y) in before.answers.iter().zip(&now.answers) {
                        ensure!(
                            x == y,
                            "{} of an unchanged {} (#{}; parameter {}) gives another answer than before: {}; in between: {}",
                            x.0, from, k, b, differ(&x.1, &y.1), steps.join("; ")
                        );
                        cx.count("derivations asked for again", 1);
                    }
                }
                asked[k] = Some(now);
            }
        }
        steps.push(format!("{} on #{} ({})", what, k, from));
        cx.say(|| steps.last().unwrap().clone());
        // nobody else may have changed; and asking twice gives the same answer
        for (j, t) in family.iter().enumerate() {
            if Some(j) == touched {
                continue;
            }
            let now = snap(t, &probes);
            if now != snaps[j] {
                bad!("{} changed a {} it was not applied to ({}): {}", steps.last().unwrap(), kind(t), if j == k { "its source" } else { "another" }, differ(&snaps[j], &now));
            }
            cx.count("snapshots compared", 1);
        }
        if let Some(j) = touched {
            let a = snap(&family[j], &probes);
            let b = snap(&family[j], &probes);
            ensure!(a == b, "asking a {} twice after {} gives different answers: {}", kind(&family[j]), steps.last().unwrap(), differ(&a, &b));
            snaps[j] = a;
            asked[j] = None;
        }
        if let Some(t) = fresh {
            let a = snap(&t, &probes);
            if let Thing::P(p) = &t {
                let _ = viol::<()>(if p.entry_count() as usize == a.body.len() { Ok(()) } else { Err("pooled matrix miscounts".into()) });
            }
            family.push(t);
            snaps.push(a);
            asked.push(known);
            if cx.rng.chance(1, 12) {
                if let Thing::G(g) = family.last().unwrap() {
                    // an adjacency matrix of the same content joins the family
                    let mut a = CsrAdjacencyMatrix::new();
                    for (c, r) in g.into_iter().take(300) {
                        a.set_entry(1, c, r);
                    }
                    let t = Thing::A(a);
                    snaps.push(snap(&t, &probes));
                    family.push(t);
                    asked.push(None);
                }
            }
        }
    }
    cx.count("families", 1);
    Ok::<(), Fail>(())
}

fn differ(a: &Snap, b: &Snap) -> String {
    if a.head != b.head {
        let k = a.head.iter().zip(&b.head).position(|(x, y)| x != y).unwrap_or(0);
        return format!("answer #{} was {:?} and is {:?}", k, a.head.get(k), b.head.get(k));
    }
    if a.body != b.body {
        let k = a.body.iter().zip(&b.body).position(|(x, y)| x != y).unwrap_or(a.body.len().min(b.body.len()));
        return format!("contents differ at #{}: {:?} / {:?} ({} / {} items)", k, a.body.get(k), b.body.get(k), a.body.len(), b.body.len());
    }
    "texts differ".into()
}
