//! The same question very many times: of one object, of very many objects in turn, and of one
//! object before and after very many changes. Counters, generations and handles that are kept
//! in 8 or 16 bits run over in each of these.
use crate::ctx::{viol, Ctx, Fail, Res};
use crate::cscript::{Cell, Op, Process, Src, World};
use crate::gen;
use crate::model::{observe, queries, Model};
use crate::props::c01::{self, note};
use crate::props::c10::Meter;
use crate::props::c14::{compare, drive};
use crate::props::{c04, c06, c08, c12, CaseFn};
use crate::{codec, model};
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::BTreeMap;

/// The cases that are run with the properties below instead of their own.
pub fn due(idx: u64) -> bool {
    !cfg!(miri) && (96..104).contains(&idx)
}
pub fn find(id: &str) -> Option<CaseFn> {
    Some(match id {
        "C01" => |cx| go(cx, &[q_queries], |_, g, m| viol(queries(g, m, &around(m))).map(|_| ())),
        "C02" => |cx| go(cx, &[q_queries], symmetric),
        "C03" => matrices,
        "C04" => |cx| go(cx, &[q_pool2, q_pool3], |cx, g, m| c04::pool_check(cx, g, m, 2).and_then(|_| c04::pool_check(cx, g, m, 3))),
        "C05" => |cx| go(cx, &[q_approx2, q_approx3], approximated),
        "C06" => |cx| go(cx, &[q_compress], |cx, g, m| c06::compress_check(cx, g, m, vec![1, 2]).map(|_| ())),
        "C07" => |cx| go(cx, &[q_decompress1, q_decompress2], decompressed),
        "C08" => |cx| go(cx, &[q_load, q_cload], loaded),
        "C09" => |cx| go(cx, &[q_save, q_csave], saved),
        "C10" => verdicts,
        "C11" => hostile,
        "C12" => |cx| go(cx, &[q_text, q_ptext, q_ctext], texts),
        "C13" => handles,
        "C14" => transcript,
        "C17" => clones,
        "C19" => memory,
        "C20" => |cx| go(cx, &[q_views], viewed),
        _ => return None,
    })
}

type Q = fn(&Graph) -> Vec<u64>;
pub type Check = fn(&mut Ctx, &Graph, &Model) -> Res;

fn times(cx: &mut Ctx) -> u64 {
    65_536 + cx.rng.range(2, 3000)
}
/// A graph of a few edges; `k` varies it.
fn content(und: bool, k: u64) -> Model {
    let mut m = Model::new(und);
    let k = k % 35;
    m.add_edge(k % 5, k % 7);
    m.add_edge(3, k / 3);
    m.add_edge(k % 4, 9);
    m.add_edge(9, 8);
    m
}
fn make(m: &Model) -> Graph {
    let mut g = c01::new(m.und);
    for (a, b) in &m.e {
        g.add_edge(*a, *b);
    }
    g
}
pub fn around(m: &Model) -> Vec<u64> {
    let mut v = m.vertices();
    v.truncate(6);
    v.push(m.n);
    v
}

fn go(cx: &mut Ctx, qs: &[Q], check: Check) -> Res {
    let und = cx.rng.bool();
    let k = cx.rng.below(35);
    cx.feed(k * 2 + und as u64);
    cx.nontrivial = true;
    cx.say(|| format!("graph {} of the small ones (undirected {}), asked very often", k, und));
    // one object
    let m = content(und, k);
    let g = make(&m);
    check(cx, &g, &m)?;
    for q in qs {
        let n = times(cx);
        let first = q(&g);
        for i in 2..=n {
            let now = q(&g);
            ensure!(now == first, "the same graph ({}), asked the same for the {}th time: {:.200?}, at first {:.200?}", m.brief(), i, now, first);
        }
        cx.count("answers compared with the first one", n);
    }
    check(cx, &g, &m).map_err(|e| note(e, || "after very many questions".into()))?;
    // many objects
    let q = *cx.rng.pick(qs);
    let mut want = vec![];
    for j in 0..35 {
        let m = content(und, j);
        let g = make(&m);
        check(cx, &g, &m)?;
        want.push(q(&g));
    }
    let n = times(cx);
    for i in 0..n {
        let m = content(und, i);
        let now = q(&make(&m));
        ensure!(now == want[i as usize % 35], "a graph ({}) made after {} others gives {:.200?}, the first such one {:.200?}", m.brief(), i, now, want[i as usize % 35]);
    }
    cx.count("objects asked in turn", n);
    // many changes
    let mut m = m;
    let mut g = g;
    let mut pool = around(&m);
    pool.extend([0, 1, 17]);
    for round in 0..4 {
        // (an undirected edge may count as two changes)
        let n = match round {
            0 => 65_536,
            1 => 32_768,
            2 => *cx.rng.pick(&[256, 128, 131_072]),
            _ => c01::round_trip(&mut cx.rng),
        };
        let ops = if round < 3 { exchange(&mut cx.rng, &m, n) } else { c01::toggles(&mut cx.rng, &m, &pool, n) };
        for op in &ops {
            c01::apply(&mut g, op);
            c01::mirror(&mut m, op);
        }
        cx.count("changes between questions", n);
        check(cx, &g, &m).map_err(|e| note(e, || format!("asked again after {} changes like {:?}", n, &ops[..ops.len().min(3)])))?;
    }
    Ok(())
}

/// `n` changes (an even number) after which there are as many vertices and edges as before, and
/// some of the edges are others.
fn exchange(r: &mut crate::rng::Rng, m: &Model, n: u64) -> Vec<c01::Op> {
    let all: Vec<(u64, u64)> = m.e.iter().copied().filter(|e| e.0 != e.1).collect();
    let Some(out) = all.get(r.us(all.len().max(1))).copied() else { return vec![] };
    let mut fresh = || loop {
        let e = (r.below(m.n), r.below(m.n));
        if e.0 != e.1 && !m.has(e.0, e.1) && !m.has(e.1, e.0) {
            return e;
        }
    };
    let (into, third) = (fresh(), fresh());
    let mut v = vec![c01::Op::Del(out.0, out.1), c01::Op::Add(into.0, into.1)];
    // (every one of the others is undone by the next)
    let third = if third == into || (third.1, third.0) == into { out } else { third };
    while (v.len() as u64) < n {
        v.push(c01::Op::Add(third.0, third.1));
        v.push(c01::Op::Del(third.0, third.1));
    }
    if r.bool() {
        v.reverse();
        for o in v.iter_mut() {
            if let c01::Op::Add(a, b) = *o {
                if (a, b) == third {
                    *o = c01::Op::Del(a, b);
                }
            } else if let c01::Op::Del(a, b) = *o {
                if (a, b) == third {
                    *o = c01::Op::Add(a, b);
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ questions

fn flat(g: &Graph) -> Vec<u64> {
    let mut e: Vec<(u64, u64)> = g.into_iter().collect();
    e.sort_unstable();
    let mut v = vec![g.is_undirected() as u64, g.vertex_count(), g.edge_count()];
    v.extend(e.into_iter().flat_map(|x| [x.0, x.1]));
    v
}
fn flat_c(c: &CompressedGraph) -> Vec<u64> {
    let mut v = vec![c.is_undirected() as u64, c.vertex_count(), c.edge_count(), c.compression_level() as u64];
    for x in 0..4 {
        for y in 0..4 {
            v.push(c.get_compressed_matrix_entry(x, y));
        }
    }
    v
}
fn flat_m(p: &CsrSquareMatrix<f64>) -> Vec<u64> {
    let mut e: Vec<(u64, u64, u64)> = p.into_iter().map(|x| (x.1, x.2, x.0.to_bits())).collect();
    e.sort_unstable();
    let mut v = vec![p.dimension(), p.entry_count()];
    v.extend(e.into_iter().flat_map(|x| [x.0, x.1, x.2]));
    v
}
fn packed(b: &[u8]) -> Vec<u64> {
    let mut v = vec![b.len() as u64];
    v.extend(b.chunks(8).map(|c| c.iter().fold(0, |a, x| a << 8 | *x as u64)));
    v
}
fn q_queries(g: &Graph) -> Vec<u64> {
    let mut v = flat(g);
    for x in [0, 1, 3, 9, 11] {
        let mut o = g.get_vertex_out_edges(x);
        let mut i = g.get_vertex_in_edges(x);
        o.sort_unstable();
        i.sort_unstable();
        v.extend([g.get_vertex_out_degree(x), g.get_vertex_in_degree(x), g.does_edge_exist(x, 9) as u64, g.does_edge_exist(9, x) as u64]);
        v.extend(o);
        v.extend(i);
    }
    v
}
fn q_pool2(g: &Graph) -> Vec<u64> {
    flat_m(&g.find_avg_pool_matrix(2))
}
fn q_pool3(g: &Graph) -> Vec<u64> {
    flat_m(&g.find_avg_pool_matrix(3))
}
fn q_approx2(g: &Graph) -> Vec<u64> {
    flat(&g.approximate(2, 0.5))
}
fn q_approx3(g: &Graph) -> Vec<u64> {
    flat(&g.approximate(3, 0.2))
}
fn q_compress(g: &Graph) -> Vec<u64> {
    flat_c(&g.compress(2))
}
fn q_decompress1(g: &Graph) -> Vec<u64> {
    flat(&g.compress(1).decompress())
}
fn q_decompress2(g: &Graph) -> Vec<u64> {
    flat(&g.compress(2).decompress())
}
fn image(g: &Graph) -> Vec<u8> {
    g.to_bytes().unwrap_or_default()
}
fn q_load(g: &Graph) -> Vec<u64> {
    Graph::try_from(image(g).as_slice()).map(|g| flat(&g)).unwrap_or_default()
}
fn q_cload(g: &Graph) -> Vec<u64> {
    let b = g.compress(1).to_bytes().unwrap_or_default();
    CompressedGraph::try_from(b.as_slice()).map(|c| flat_c(&c)).unwrap_or_default()
}
fn sorted(mut b: Vec<u8>, head: usize, rec: usize) -> Vec<u64> {
    if b.len() > head {
        let mut r: Vec<Vec<u8>> = b.split_off(head).chunks(rec).map(|c| c.to_vec()).collect();
        r.sort_unstable();
        b.extend(r.into_iter().flatten());
    }
    packed(&b)
}
fn q_save(g: &Graph) -> Vec<u64> {
    sorted(image(g), 26, 16)
}
fn q_csave(g: &Graph) -> Vec<u64> {
    sorted(g.compress(1).to_bytes().unwrap_or_default(), 42, 24)
}
fn q_text(g: &Graph) -> Vec<u64> {
    packed(g.matrix_string().unwrap_or_default().as_bytes())
}
fn q_ptext(g: &Graph) -> Vec<u64> {
    packed(g.find_avg_pool_matrix(4).to_string_with_precision(2).unwrap_or_default().as_bytes())
}
fn q_ctext(g: &Graph) -> Vec<u64> {
    packed(g.compress(1).matrix_string().unwrap_or_default().as_bytes())
}
fn q_views(g: &Graph) -> Vec<u64> {
    let c = g.compress(1);
    let mut v = flat_c(&c);
    for x in [0, 1, 3, 9, 11] {
        for y in [0, 2, 8, 9, 11] {
            v.push(c.does_edge_exist(x, y) as u64);
        }
    }
    v.extend(flat(&c.decompress()));
    v.extend(sorted(c.to_bytes().unwrap_or_default(), 42, 24));
    v
}

// ------------------------------------------------------------------ oracles

pub fn equal(what: &str, g: &Graph, m: &Model) -> Res {
    viol(model::same(what, g, m))
}
pub fn symmetric(_: &mut Ctx, g: &Graph, m: &Model) -> Res {
    let o = viol(observe(g))?;
    if m.und {
        if let Some(e) = o.asymmetric() {
            bad!("undirected graph has {:?} in one direction only", e);
        }
    }
    viol(queries(g, m, &around(m))).map(|_| ())
}
fn approximated(cx: &mut Ctx, g: &Graph, m: &Model) -> Res {
    for (b, t) in [(2, 0.5), (3, 0.2), (4, 1.0 / 16.0)] {
        c04::one(cx, g, m, b, t, &m.census(b), true)?;
    }
    Ok(())
}
pub fn decompressed(_: &mut Ctx, g: &Graph, m: &Model) -> Res {
    equal("compress(1).decompress()", &g.compress(1).decompress(), m)?;
    let c = g.compress(2);
    let kept = model::cwords(&c, m.words().into_keys());
    let want = Model { e: m.e.iter().filter(|(a, b)| kept.contains_key(&(a / 8, b / 8))).copied().collect(), ..m.clone() };
    equal("compress(2).decompress()", &c.decompress(), &want)
}
fn compressed_model(m: &Model) -> codec::CModel {
    codec::CModel { und: m.und, n: m.n, level: 1, w: m.words() }
}
pub fn loaded(_: &mut Ctx, g: &Graph, m: &Model) -> Res {
    match Graph::try_from(image(g).as_slice()) {
        Ok(l) => equal("loaded", &l, m)?,
        Err(e) => bad!("a saved graph does not load: {}", e),
    }
    let b = g.compress(1).to_bytes().map_err(|e| Fail::Violation(format!("to_bytes failed: {}", e)))?;
    match CompressedGraph::try_from(b.as_slice()) {
        Ok(c) => viol(c08::csame("loaded compressed graph", &c, &compressed_model(m))),
        Err(e) => bad!("a saved compressed graph does not load: {}", e),
    }
}
pub fn saved(_: &mut Ctx, g: &Graph, m: &Model) -> Res {
    match codec::read_graph(&image(g)) {
        Ok(o) => {
            if let Some(d) = o.diff(m) {
                bad!("saved bytes describe another graph: {}", d);
            }
        }
        Err(e) => bad!("saved bytes are no consistent image: {}", e),
    }
    match codec::read_compressed(&g.compress(1).to_bytes().unwrap_or_default()) {
        Ok(o) => ensure!(o == compressed_model(m), "saved bytes describe another compressed graph"),
        Err(e) => bad!("saved bytes are no consistent compressed image: {}", e),
    }
    Ok(())
}
fn texts(_: &mut Ctx, g: &Graph, m: &Model) -> Res {
    let want = c12::render(m.n, "0", &m.e.iter().map(|k| (*k, "1".to_string())).collect());
    ensure!(g.matrix_string().unwrap_or_default() == want, "matrix_string of {}", m.brief());
    let b = codec::block_dim(m.n);
    let want = c12::render(b, "0", &m.words().iter().map(|(k, w)| (*k, w.to_string())).collect());
    ensure!(g.compress(1).matrix_string().unwrap_or_default() == want, "compressed matrix_string of {}", m.brief());
    // (sixteenths: two decimals need rounding, so only the cells that need none are judged here)
    let p = g.find_avg_pool_matrix(4).to_string_with_precision(4).unwrap_or_default();
    let want = c12::render(m.n / 4 + (m.n % 4 != 0) as u64, "0.0000", &m.census(4).iter().map(|(k, n)| (*k, format!("{:.4}", *n as f64 / 16.0))).collect());
    ensure!(p == want, "text of the pooled matrix of {}: {:?}, expected {:?}", m.brief(), p, want);
    Ok(())
}
pub fn viewed(cx: &mut Ctx, g: &Graph, m: &Model) -> Res {
    let _ = cx;
    let c = g.compress(1);
    viol(c08::csame("compressed", &c, &compressed_model(m)))?;
    for a in around(m) {
        for b in around(m) {
            ensure!(c.does_edge_exist(a, b) == m.has(a, b), "compressed: edge {}>{} reads {}", a, b, !m.has(a, b));
        }
    }
    equal("decompressed", &c.decompress(), m)?;
    match codec::read_compressed(&c.to_bytes().unwrap_or_default()) {
        Ok(o) => ensure!(o == compressed_model(m), "saved bytes describe another compressed graph"),
        Err(e) => bad!("saved bytes are no consistent compressed image: {}", e),
    }
    Ok(())
}

// ------------------------------------------------------------------ the others

fn matrices(cx: &mut Ctx) -> Res {
    cx.nontrivial = true;
    let mut a = CsrSquareMatrix::<u32>::new();
    let mut b = CsrAdjacencyMatrix::new();
    let mut want = BTreeMap::new();
    for _ in 0..cx.rng.range(2, 6) {
        let (c, r, v) = (cx.rng.below(6), cx.rng.below(6), cx.rng.range(1, 99) as u32);
        cx.feed(c * 8 + r);
        a.set_entry(v, c, r);
        b.set_entry(1, c, r);
        want.insert((c, r), v);
    }
    cx.say(|| format!("matrices with {:?}, asked very often", want));
    let dim = want.keys().map(|k| k.0.max(k.1) + 1).max().unwrap_or(0);
    let judge = |a: &CsrSquareMatrix<u32>, b: &CsrAdjacencyMatrix, want: &BTreeMap<(u64, u64), u32>, when: u64| -> Res {
        ensure!(a.dimension() == dim && b.dimension() == dim, "question {}: dimensions {} and {}, expected {}", when, a.dimension(), b.dimension(), dim);
        ensure!(a.entry_count() == want.len() as u64 && b.entry_count() == want.len() as u64, "question {}: {} and {} entries counted, expected {}", when, a.entry_count(), b.entry_count(), want.len());
        let (mut n, mut k) = (0, 0);
        for (v, c, r) in a {
            ensure!(want.get(&(c, r)) == Some(&v), "question {}: ({},{}) iterates as {}, expected {:?}", when, c, r, v, want.get(&(c, r)));
            n += 1;
        }
        for (c, r) in b {
            ensure!(want.contains_key(&(c, r)), "question {}: ({},{}) is iterated, expected {:?}", when, c, r, want);
            k += 1;
        }
        ensure!(n == want.len() && k == want.len(), "question {}: {} and {} entries iterated, expected {}", when, n, k, want.len());
        for (c, r) in [(0, 0), (dim - 1, 0), (0, dim - 1), (dim - 1, dim - 1), (dim, 0)] {
            let v = want.get(&(c, r)).copied().unwrap_or(0);
            ensure!(a.get_entry(c, r) == v && b.get_entry(c, r) == (v != 0) as u8, "question {}: ({},{}) reads {} and {}, expected {}", when, c, r, a.get_entry(c, r), b.get_entry(c, r), v);
        }
        Ok(())
    };
    let n = times(cx);
    for i in 1..=n {
        judge(&a, &b, &want, i)?;
    }
    cx.count("answers compared with the first one", n);
    // increments up to and beyond what 16 bits count
    let at = *want.keys().next().unwrap();
    for i in 0..n {
        a.increment_entry(at.0, at.1);
        b.set_entry(1, at.0, at.1);
        if i.is_power_of_two() || i % 4099 == 0 || i > 65_500 && i < 65_560 {
            let now = want[&at] + i as u32 + 1;
            ensure!(a.get_entry(at.0, at.1) == now && a.entry_count() == want.len() as u64, "after {} increments ({},{}) reads {}, expected {}", i + 1, at.0, at.1, a.get_entry(at.0, at.1), now);
        }
    }
    cx.count("writes", 2 * n);
    *want.get_mut(&at).unwrap() += n as u32;
    judge(&a, &b, &want, n)
}

fn verdicts(cx: &mut Ctx) -> Res {
    cx.nontrivial = true;
    let m = content(cx.rng.bool(), cx.rng.below(35));
    let e: Vec<(u64, u64)> = m.e.iter().copied().collect();
    let good = codec::write_graph(m.und, m.n, &e);
    let words: Vec<_> = m.words().into_iter().collect();
    let cgood = codec::write_compressed(m.und, m.n, 1, &words);
    let mut b = vec![];
    for x in [good, cgood] {
        b.push(x.clone());
        let mut y = x.clone();
        let k = cx.rng.us(8);
        y[k] ^= 1 << cx.rng.below(8);
        b.push(y);
        b.push(x[..x.len() - 1].to_vec());
        let mut y = x.clone();
        let l = y.len();
        y[l - 1] ^= 0x40;
        b.push(y);
    }
    for x in b {
        cx.feed(packed(&x).iter().fold(0, |a, w| a.rotate_left(9) ^ w));
        let (w1, w2) = (codec::read_graph(&x).is_ok(), codec::read_compressed(&x).is_ok());
        let n = times(cx);
        let at = codec::Placed::new(&x);
        for i in 1..=n {
            let (g1, g2) = (Graph::try_from(&at[..]).is_ok(), CompressedGraph::try_from(&at[..]).is_ok());
            ensure!(g1 == w1 && g2 == w2, "{} bytes {:x?}, decoded for the {}th time: accepted {} as a graph and {} as a compressed graph, expected {} and {}", x.len(), &x, i, g1, g2, w1, w2);
        }
        cx.count("verdicts compared", 2 * n);
    }
    Ok(())
}

fn hostile(cx: &mut Ctx) -> Res {
    cx.nontrivial = true;
    let m = content(cx.rng.bool(), cx.rng.below(35));
    let e: Vec<(u64, u64)> = m.e.iter().copied().collect();
    let mut b = if cx.rng.bool() { codec::write_graph(m.und, m.n, &e) } else { codec::write_compressed(m.und, m.n, 1, &m.words().into_iter().collect::<Vec<_>>()) };
    for _ in 0..cx.rng.below(4) {
        let k = cx.rng.us(b.len());
        b[k] ^= 1 << cx.rng.below(8);
    }
    cx.feed(packed(&b).iter().fold(0, |a, w| a.rotate_left(9) ^ w));
    let n = times(cx);
    let at = codec::Placed::new(&b);
    let _ = (Graph::try_from(&at[..]).is_ok(), CompressedGraph::try_from(&at[..]).is_ok());
    let meter = Meter::start();
    for _ in 0..n {
        let _ = (Graph::try_from(&at[..]).is_ok(), CompressedGraph::try_from(&at[..]).is_ok());
    }
    let bound = 64 * 1024 + 1024 * b.len();
    ensure!(meter.peak() <= bound, "decoding the same {} bytes {} times over took {} bytes of memory", b.len(), n, meter.peak());
    ensure!(meter.blocks() <= 2 * n * (256 + b.len() as u64), "decoding {} bytes {} times over made {} allocations", b.len(), n, meter.blocks());
    cx.count("decodes metered", 2 * n);
    Ok(())
}

fn clones(cx: &mut Ctx) -> Res {
    cx.nontrivial = true;
    let k = cx.rng.below(35);
    let m = content(cx.rng.bool(), k);
    cx.feed(k);
    cx.say(|| format!("very many copies of {}", m.brief()));
    let n = times(cx) as usize;
    let g = make(&m);
    let want = flat(&g);
    // copies of the same graph, or copies of copies
    let chain = cx.rng.bool();
    let mut all: Vec<Option<Graph>> = Vec::with_capacity(n);
    for i in 0..n {
        let c = if chain && i > 0 { all[i - 1].clone() } else { Some(g.clone()) };
        all.push(c);
    }
    // some are changed, some dropped, some copied again; the others must not notice
    let mut g = g;
    g.add_edge(40, 41);
    g.delete_edge(9, 8);
    let changed = flat(&g);
    let mut other = vec![false; n];
    for i in 0..n {
        match cx.rng.below(6) {
            0 => all[i] = None,
            1 => {
                if let Some(c) = &mut all[i] {
                    c.add_edge(40, 41);
                    c.delete_edge(9, 8);
                    ensure!(flat(c) == changed, "copy {} of {}, changed, lists {:.200?}, expected {:.200?}", i, n, flat(c), changed);
                    *c = c.clone();
                    other[i] = true;
                }
            }
            _ => {}
        }
    }
    for (i, c) in all.iter().enumerate() {
        if let Some(c) = c {
            let f = flat(c);
            let w = if other[i] { &changed } else { &want };
            ensure!(f == *w, "copy {} of {} lists {:.200?}, expected {:.200?}", i, n, f, w);
        }
    }
    ensure!(flat(&g) == changed, "the original lists {:.200?}, expected {:.200?}", flat(&g), changed);
    cx.count("copies held at once", n as u64);
    // a compressed graph, a matrix
    let m0 = make(&m);
    let (c, p) = (m0.compress(1), m0.find_avg_pool_matrix(2));
    let (wc, wp) = (flat_c(&c), flat_m(&p));
    let mut cs = vec![];
    let mut ps = vec![];
    for _ in 0..n {
        cs.push(c.clone());
        ps.push(p.clone());
    }
    for k in (0..n).step_by(2) {
        ps[k].set_entry(7.5, 3, 3);
    }
    drop((c, p));
    for k in 0..n {
        ensure!(flat_c(&cs[k]) == wc, "copy {} of a compressed graph changed", k);
        if k % 2 == 1 {
            ensure!(flat_m(&ps[k]) == wp, "copy {} of a matrix changed with another one", k);
        } else {
            ensure!(ps[k].get_entry(3, 3) == 7.5, "copy {} of a matrix lost a write", k);
        }
    }
    cx.count("copies held at once", 2 * n as u64);
    Ok(())
}

fn memory(cx: &mut Ctx) -> Res {
    cx.nontrivial = true;
    let k = cx.rng.below(35);
    let m = content(cx.rng.bool(), k);
    cx.feed(k);
    cx.say(|| format!("{} used very often", m.brief()));
    let mut g = make(&m);
    let qs: [Q; 8] = [q_queries, q_pool2, q_approx2, q_compress, q_decompress1, q_load, q_text, q_cload];
    let n = times(cx);
    let items = 2 * m.e.len();
    for q in qs {
        q(&g);
        let meter = Meter::start();
        for _ in 0..n / 4 {
            q(&g);
        }
        ensure!(meter.peak() <= 64 * 1024 + 1024 * items, "asking a graph of {} edges the same {} times over took {} bytes of memory", m.e.len(), n / 4, meter.peak());
        cx.count("operations metered", n / 4);
    }
    // a few edges, added and deleted again and again
    let mut far = [0u64; 3];
    for x in far.iter_mut() {
        *x = gen::id(&mut cx.rng, cx.dict);
    }
    let meter = Meter::start();
    for i in 0..n {
        let (a, b) = (far[i as usize % 3], far[i as usize / 3 % 3]);
        if g.does_edge_exist(a, b) { g.delete_edge(a, b) } else { g.add_edge(a, b) }
    }
    ensure!(meter.peak() <= 64 * 1024 + 1024 * (items + 18), "{} changes of the same few edges took {} bytes of memory", n, meter.peak());
    let mut p = g.compress(1);
    for _ in 0..n / 4 {
        p = p.clone();
    }
    let mut q = g.find_avg_pool_matrix(u64::MAX);
    for i in 0..n {
        q.set_entry((i % 2) as f64, far[i as usize % 3], far[i as usize / 3 % 3]);
        q.increment_entry(1, 1);
        q.zero_entry(1, 1);
    }
    ensure!(meter.peak() <= 64 * 1024 + 1024 * (items + 36), "{} changes of the same few cells took {} bytes of memory", n, meter.peak());
    cx.count("operations metered", 2 * n + n / 4);
    Ok(())
}

/// More C objects, buffers and lists alive at once than 16 bits can number, released in any order.
fn handles(cx: &mut Ctx) -> Res {
    cx.nontrivial = true;
    let n = times(cx) as usize;
    let kind = cx.idx % 8;
    cx.feed(n as u64 * 8 + kind);
    cx.say(|| format!("{} objects of kind {} alive at once", n, kind));
    #[cfg(feature = "monalloc")]
    let live = || (gxalloc::live_blocks() as i64, gxalloc::live_bytes() as i64);
    #[cfg(not(feature = "monalloc"))]
    let live = || (0i64, 0i64);
    let mut order: Vec<usize> = (2..n + 2).collect();
    cx.rng.shuffle(&mut order);
    let again: Vec<bool> = (0..n + 2).map(|_| cx.rng.chance(1, 3)).collect();
    let und = cx.rng.bool();
    let run = |order: &[usize]| -> Result<(i64, i64), Fail> {
        let before = live();
        let r = (|| -> Res {
            let mut p = Process::new();
            let f = |p: &mut Process, op: Op| unsafe { p.run(&op) };
            f(&mut p, Op::New(0, und));
            f(&mut p, Op::Add(0, 3, 5));
            f(&mut p, Op::Add(0, 0, 9));
            f(&mut p, Op::Compress(1, 0, 1));
            // object k is told from the others by its content where it can be
            let make = |p: &mut Process, k: usize| match kind {
                0 => {
                    f(p, Op::New(k, und));
                    f(p, Op::Add(k, k as u64, 1))
                }
                1 => match k % 9 {
                    0 => f(p, Op::Dup(k, 0)),
                    1 => f(p, Op::Pool(k, 0, 1 + k as u64 % 5)),
                    2 => f(p, Op::CDup(k, 1)),
                    3 => f(p, Op::Edges(k, 0, false)),
                    4 => f(p, Op::In(k, 0, 5, false)),
                    5 => f(p, Op::Text(k, 0)),
                    6 => f(p, Op::CBytes(k, 1, false)),
                    7 => f(p, Op::Decomp(k, 1)),
                    _ => f(p, Op::Approx(k, 0, 1 + k as u64 % 5, 0.25)),
                },
                2 if k % 2 == 0 => f(p, Op::In(k, 0, 5, false)),
                2 => f(p, Op::Out(k, 0, 3, false)),
                3 => f(p, Op::Edges(k, 0, false)),
                4 => f(p, Op::Pool(k, 0, 1 + k as u64 % 5)),
                5 if k % 2 == 0 => f(p, Op::CDup(k, 1)),
                5 => f(p, Op::Compress(k, 0, 1 + k as u8 % 7)),
                6 if k % 2 == 0 => f(p, Op::Bytes(k, 0, false)),
                6 => f(p, Op::CBytes(k, 1, false)),
                _ if k % 2 == 0 => f(p, Op::Text(k, 0)),
                _ => f(p, Op::CText(k, 1)),
            };
            let look = |p: &mut Process, k: usize| match &p.s[k] {
                Cell::G(_) => [f(p, Op::Q(k, 2, 0, 0)), f(p, Op::Q(k, 3, if kind == 0 { k as u64 } else { 3 }, if kind == 0 { 1 } else { 5 }))],
                Cell::C(_) => [f(p, Op::CQ(k, 0, 0, 0)), f(p, Op::CQ(k, 3, 0, 0))],
                Cell::M(_) => [f(p, Op::MQ(k, 0)), f(p, Op::MQ(k, 1))],
                Cell::Empty => [crate::cscript::Obs::None, crate::cscript::Obs::None],
                _ => [f(p, Op::Reread(k)), crate::cscript::Obs::None],
            };
            let mut want = Vec::with_capacity(n + 2);
            want.resize_with(n + 2, || None);
            for k in 2..n + 2 {
                make(&mut p, k);
                ensure!(!matches!(p.s[k], Cell::Empty), "object {} of kind {} was not to be had", k, kind);
                want[k] = Some(look(&mut p, k));
            }
            for (j, k) in order.iter().enumerate() {
                let now = look(&mut p, *k);
                ensure!(want[*k].as_ref() == Some(&now), "object {} of {} alive at once answers {:.200?}, at first {:.200?}", k, n, now, want[*k]);
                f(&mut p, Op::Free(*k));
                if again[j] && j < n / 2 {
                    // another one in its place
                    make(&mut p, *k);
                    want[*k] = Some(look(&mut p, *k));
                }
            }
            for k in 0..n + 2 {
                if !matches!(p.s[k], Cell::Empty) {
                    if k > 1 {
                        let now = look(&mut p, k);
                        ensure!(want[k].as_ref() == Some(&now), "object {} of {} alive at once answers {:.200?}, at first {:.200?}", k, n, now, want[k]);
                    }
                    f(&mut p, Op::Free(k));
                }
            }
            Ok(())
        })();
        r?;
        let after = live();
        Ok((after.0 - before.0, after.1 - before.1))
    };
    let mut left = run(&order)?;
    if left != (0, 0) {
        left = run(&order)?;
    }
    ensure!(left == (0, 0), "after {} objects alive at once have been released, {} blocks / {} bytes remain allocated", n, left.0, left.1);
    cx.count("C objects, buffers and lists alive at once", n as u64);
    Ok(())
}

/// The C program makes the same few calls very many times, on one object or on one after another.
fn transcript(cx: &mut Ctx) -> Res {
    let Some(p) = cx.aux.split(';').find_map(|x| x.strip_prefix("plain=")) else { return Err(Fail::Skip("no C program")) };
    cx.nontrivial = true;
    let n = times(cx);
    let kind = cx.rng.below(4);
    cx.feed(n * 4 + kind);
    cx.say(|| format!("{} rounds of kind {}", n, kind));
    let mut ops = vec![Op::New(0, cx.rng.bool()), Op::Add(0, 3, 5), Op::Add(0, 0, 9), Op::Compress(1, 0, 1), Op::Pool(2, 0, 4), Op::Bytes(3, 0, false), Op::CBytes(4, 1, false)];
    // of the four calls of a kind, often always the same one
    let one = if cx.rng.chance(3, 4) { Some(cx.rng.below(4)) } else { None };
    for i in 0..n {
        let turn = one.unwrap_or(i % 4);
        match kind {
            0 => ops.extend([Op::New(5, i % 3 == 0), Op::Add(5, i % 5, i % 7), Op::Q(5, 2, 0, 0), Op::Q(5, 3, i % 5, i % 7), Op::Free(5)]),
            1 => match turn {
                0 => ops.extend([Op::Edges(5, 0, false), Op::Free(5)]),
                1 => ops.extend([Op::In(5, 0, 5, false), Op::Free(5)]),
                2 => ops.extend([Op::Text(5, 0), Op::Free(5)]),
                _ => ops.extend([Op::CText(5, 1), Op::Free(5)]),
            },
            2 => match turn {
                0 => ops.extend([Op::Pool(5, 0, 1 + i % 5), Op::MQ(5, 1), Op::Free(5)]),
                1 => ops.extend([Op::Approx(5, 0, 2, 0.5), Op::Q(5, 2, 0, 0), Op::Free(5)]),
                2 => ops.extend([Op::Decomp(5, 1), Op::Q(5, 2, 0, 0), Op::Free(5)]),
                _ => ops.extend([Op::MText(5, 2), Op::Free(5)]),
            },
            _ => match turn {
                0 => ops.extend([Op::Load(5, Src::Slot(3), false), Op::Q(5, 2, 0, 0), Op::Free(5)]),
                1 => ops.extend([Op::CLoad(5, Src::Slot(4), false), Op::CQ(5, 3, 0, 0), Op::Free(5)]),
                2 => ops.push(Op::Load(5, Src::Slot(4), false)),
                _ => ops.extend([Op::CLoad(5, Src::Null(9), false), Op::Dup(5, 0), Op::Free(5)]),
            },
        }
    }
    let mut w = World::new();
    let want: Vec<_> = ops.iter().map(|o| cx.setup(|_| w.run(o))).collect();
    let got = drive(p, &ops)?;
    compare(&ops, &want, &got)?;
    cx.count("calls compared with the library", ops.len() as u64);
    Ok(())
}
