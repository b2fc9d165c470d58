//! Every size in turn: things of 1, 2, 3, ... edges, blocks, vertices, list elements, up to some
//! two thousand, and a few of the great round numbers. What goes wrong at one size only (a full
//! buffer, a chunk that ends where the data end) shows here, whatever that size is.
use crate::codec;
use crate::ctx::{viol, Ctx, Fail, Res};
use crate::cscript::{Op, World};
use crate::model::{queries, Model};
use crate::props::c01::note;
use crate::props::c10::{judge, Meter};
use crate::props::c14::{compare, drive};
use crate::props::many::{around, decompressed, equal, loaded, saved, symmetric, viewed, Check};
use crate::props::{c04, c06, c12, c01, CaseFn};
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::BTreeMap;

const FIRST: u64 = 104;
/// 46 * 46
const MOST: u64 = 2116;

pub fn due(idx: u64) -> bool {
    !cfg!(miri) && (FIRST..FIRST + 16).contains(&idx)
}
pub fn find(id: &str) -> Option<CaseFn> {
    Some(match id {
        "C01" => |cx| go(cx, |_, g, m| viol(queries(g, m, &around(m))).map(|_| ())),
        "C02" => |cx| go(cx, symmetric),
        "C03" => matrices,
        "C04" => |cx| go(cx, |cx, g, m| c04::pool_check(cx, g, m, 8).and_then(|_| { let b = 1 + m.e.len() as u64 % 7; c04::pool_check(cx, g, m, b) })),
        "C05" => |cx| go(cx, approximated),
        "C06" => |cx| go(cx, |cx, g, m| c06::compress_check(cx, g, m, vec![1, 2]).map(|_| ())),
        "C07" => |cx| go(cx, decompressed),
        "C08" => |cx| go(cx, loaded),
        "C09" => |cx| go(cx, saved),
        "C10" => |cx| go(cx, verdicts),
        "C11" => |cx| go(cx, metered),
        "C12" => |cx| go(cx, texts),
        "C13" => |cx| go(cx, released),
        "C14" => transcript,
        "C17" => |cx| go(cx, copied),
        "C20" => |cx| go(cx, viewed),
        _ => return None,
    })
}

/// The k-th edge of a shape.
fn edge(shape: u64, k: u64) -> (u64, u64) {
    // (a permutation of the 46 * 46 cells)
    let c = k * 1531 % MOST;
    match shape {
        0 => (c / 46, c % 46),
        1 => (c / 46 * 8 + k % 8, c % 46 * 8 + k / 8 % 8),
        2 => (7, 3 * k + 1),
        _ => (3 * k + 1, 7),
    }
}

fn go(cx: &mut Ctx, check: Check) -> Res {
    let j = cx.idx - FIRST;
    let (und, shape) = (j & 1 == 1, j >> 1 & 3);
    cx.nontrivial = true;
    cx.feed(j);
    if j >= 8 {
        return vertices(cx, und, j - 8, check);
    }
    cx.say(|| format!("growing edge by edge (undirected {}, shape {})", und, shape));
    let mut g = c01::new(und);
    let mut m = Model::new(und);
    let mut sizes = 0;
    for k in 0..MOST {
        let (a, b) = edge(shape, k);
        if m.has(a, b) {
            continue;
        }
        g.add_edge(a, b);
        m.add_edge(a, b);
        let n = m.e.len();
        if n > 1030 && ![0, 1, 7].contains(&(n % 8)) && n % 1000 != 999 || shape > 1 && n > 540 && n % 3 != 0 {
            continue;
        }
        check(cx, &g, &m).map_err(|e| note(e, || format!("with {} edges, the last of them {}>{}", m.e.len(), a, b)))?;
        sizes += 1;
        if m.e.len() as u64 > MOST {
            break;
        }
    }
    // and back
    for k in 0..MOST {
        let (a, b) = edge(shape, k);
        if !m.has(a, b) {
            continue;
        }
        g.delete_edge(a, b);
        m.delete_edge(a, b);
        if k % if shape > 1 { 9 } else { 5 } == 0 || m.e.len() < 70 {
            check(cx, &g, &m).map_err(|e| note(e, || format!("shrunk to {} edges by deleting {}>{}", m.e.len(), a, b)))?;
            sizes += 1;
        }
    }
    cx.count("sizes checked one by one", sizes);
    Ok(())
}

/// Every vertex count, every length of a vertex's list, and a great round number of edges.
fn vertices(cx: &mut Ctx, und: bool, j: u64, check: Check) -> Res {
    cx.say(|| format!("every vertex count (undirected {})", und));
    let part = j / 2;
    for n in (1 + part..=1200).step_by(4) {
        let mut g = c01::new(und);
        let mut m = Model::new(und);
        let list: Vec<u64> = (0..n).map(|k| k * 7 % n).collect();
        match n % 3 {
            0 => {
                g.add_vertex(n - 1, None);
                m.add_vertex(n - 1, None);
                g.add_edge(n / 2, n / 3);
                m.add_edge(n / 2, n / 3);
            }
            1 => {
                g.add_edge(n - 1, n / 2);
                m.add_edge(n - 1, n / 2);
                g.add_edge(0, n - 1);
                m.add_edge(0, n - 1);
            }
            _ => {}
        }
        check(cx, &g, &m).map_err(|e| note(e, || format!("with {} vertices", n)))?;
        g.add_vertex(n / 2, Some(&list));
        m.add_vertex(n / 2, Some(&list));
        check(cx, &g, &m).map_err(|e| note(e, || format!("with a list of {} added", n)))?;
    }
    cx.count("sizes checked one by one", 600);
    let big = [4096, 8192, 10_000, 16_384, 32_768, 65_536, 100_000, 131_072][j as usize];
    let mut g = c01::new(und);
    let mut m = Model::new(und);
    let mut k = 0;
    while (m.e.len() as u64) < big + 1 {
        let (a, b) = (k * 1531 % 2999 * 3, k / 2999 * 8 + k % 5);
        k += 1;
        if a != b || k % 2 == 0 {
            g.add_edge(a, b);
            m.add_edge(a, b);
            if (m.e.len() as u64).abs_diff(big) <= 1 {
                check(cx, &g, &m).map_err(|e| note(e, || format!("with {} edges", m.e.len())))?;
                cx.count("great round sizes", 1);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ oracles

fn approximated(cx: &mut Ctx, g: &Graph, m: &Model) -> Res {
    let b = 2 + m.e.len() as u64 % 3;
    let (b, t) = if m.e.len() % 2 == 0 { (8, 1.0 / 64.0) } else { (b, 0.3) };
    cx.desc.truncate(2000);
    c04::one(cx, g, m, b, t, &m.census(b), true)
}
fn verdicts(cx: &mut Ctx, _: &Graph, m: &Model) -> Res {
    if m.e.len() > 600 && m.e.len() < 4000 && m.e.len() % 4 != 0 && m.e.len() % 1000 != 999 {
        return Ok(());
    }
    let mut e: Vec<(u64, u64)> = m.e.iter().copied().collect();
    let mut w: Vec<((u64, u64), u64)> = m.words().into_iter().collect();
    cx.rng.shuffle(&mut e);
    cx.rng.shuffle(&mut w);
    let comp = cx.rng.bool();
    let (mut b, head, rec) = if comp { (codec::write_compressed(m.und, m.n, 1, &w), 42, 24) } else { (codec::write_graph(m.und, m.n, &e), 26, 16) };
    judge(cx, &b)?;
    if b.len() == head {
        return Ok(());
    }
    let r = &mut cx.rng;
    let last = b.len() - rec;
    // the first, the last or any record
    let any = head + rec * r.us((b.len() - head) / rec);
    let at = *r.pick(&[head, last, any]);
    let low = codec::be64(&b, 8);
    let before = b.clone();
    match r.below(6) {
        0 => codec::set64(&mut b, at + if comp { 8 } else { 0 } + 8 * r.us(2), low),
        1 => {
            let c = b[at..at + rec].to_vec();
            let to = head + rec * r.us((b.len() - head) / rec);
            b[to..to + rec].copy_from_slice(&c);
        }
        2 => {
            b.truncate(last);
            codec::set64(&mut b, 16, ((last - head) / rec) as u64);
        }
        3 => {
            b.truncate(last + r.us(rec));
        }
        4 if comp => {
            // a bit elsewhere in the word
            let x = codec::be64(&b, at);
            codec::set64(&mut b, at, x.rotate_left(1 + r.below(63) as u32));
        }
        4 => {
            let x = r.below(low);
            codec::set64(&mut b, at, x);
        }
        _ => {
            let c = codec::be64(&b, 16);
            codec::set64(&mut b, 16, if r.bool() { c + 1 } else { c - 1 });
        }
    }
    if b != before {
        judge(cx, &b)?;
    }
    Ok(())
}
fn metered(_: &mut Ctx, _: &Graph, m: &Model) -> Res {
    let comp = m.e.len() % 2 == 1;
    let b = if comp {
        codec::write_compressed(m.und, m.n, 1, &m.words().into_iter().collect::<Vec<_>>())
    } else {
        codec::write_graph(m.und, m.n, &m.e.iter().copied().collect::<Vec<_>>())
    };
    let at = codec::Placed::new(&b);
    let meter = Meter::start();
    let ok = if comp { CompressedGraph::try_from(&at[..]).is_ok() } else { Graph::try_from(&at[..]).is_ok() };
    let bound = 64 * 1024 + 1024 * b.len();
    ensure!(meter.peak() <= bound, "decoding {} bytes took {} bytes of memory", b.len(), meter.peak());
    ensure!(ok, "a consistent image of {} bytes was rejected", b.len());
    Ok(())
}
fn texts(_: &mut Ctx, g: &Graph, m: &Model) -> Res {
    let cells = |m: &Model| -> BTreeMap<(u64, u64), String> { m.e.iter().map(|k| (*k, "1".to_string())).collect() };
    let k = m.e.len();
    // (much text where there is little to see is left out)
    if m.n <= 64 || m.n <= 512 && k % 40 == 0 || k < 4 && m.n <= 1200 && m.n % 7 == 0 {
        ensure!(g.matrix_string().unwrap_or_default() == c12::render(m.n, "0", &cells(m)), "matrix_string of {}", m.brief());
    }
    if m.n <= 64 {
        let want = c12::render(m.n, "0.0", &m.e.iter().map(|k| (*k, "1.0".to_string())).collect());
        ensure!(g.find_avg_pool_matrix(1).to_string_with_precision(1).unwrap_or_default() == want, "text of the matrix of {}", m.brief());
    }
    if m.n <= 368 && (m.n <= 64 || k % 2 == 0) || k < 4 && m.n <= 1200 {
        let b = codec::block_dim(m.n);
        let want = c12::render(b, "0", &m.words().iter().map(|(k, w)| (*k, w.to_string())).collect());
        ensure!(g.compress(1).matrix_string().unwrap_or_default() == want, "compressed matrix_string of {}", m.brief());
    }
    Ok(())
}
fn copied(_: &mut Ctx, g: &Graph, m: &Model) -> Res {
    let mut c = g.clone();
    let e = m.e.iter().nth(m.e.len() / 2).copied().unwrap_or((0, 0));
    let k = g.compress(1);
    let p = g.find_avg_pool_matrix(2);
    c.delete_edge(e.0, e.1);
    c.add_edge(m.n, 0);
    equal("the original of a copy that was changed", g, m)?;
    let mut w = m.clone();
    w.delete_edge(e.0, e.1);
    w.add_edge(m.n, 0);
    equal("the changed copy", &c, &w)?;
    let (k2, p2) = (k.clone(), p.clone());
    drop(k);
    let mut p = p;
    p.set_entry(2.0, 0, 0);
    ensure!(k2.edge_count() == m.e.len() as u64, "the copy of a compressed graph counts {} edges", k2.edge_count());
    ensure!(p2.entry_count() == m.census(2).len() as u64 && p2.get_entry(0, 0) <= 1.0, "the copy of a matrix changed with its original");
    Ok(())
}
/// Lists, images and texts of this size through C, released with the length they came with.
fn released(cx: &mut Ctx, g: &Graph, m: &Model) -> Res {
    #[cfg(feature = "monalloc")]
    let live = || (gxalloc::live_blocks() as i64, gxalloc::live_bytes() as i64);
    #[cfg(not(feature = "monalloc"))]
    let live = || (0i64, 0i64);
    use graphrox_c::*;
    let at = m.e.iter().nth(m.e.len() / 2).copied().unwrap_or((0, 0));
    let h = GphrxGraph { graph_ptr: g as *const Graph as *mut _ };
    let before = live();
    let (mut a, mut b, mut c, mut d, mut e, mut f) = (9usize, 9, 9, 9, 9, 9);
    unsafe {
        let l = gphrx_get_edge_list(h, &mut a);
        ensure!(a == m.e.len(), "the edge list of {} edges is {} long", m.e.len(), a);
        free_gphrx_edge_list(l, a);
        let l = gphrx_get_vertex_out_edges_list(h, at.0, &mut b);
        let k = gphrx_get_vertex_in_edges_list(h, at.1, &mut c);
        free_gphrx_vertex_list(l, b);
        free_gphrx_vertex_list(k, c);
        let l = gphrx_to_bytes(h, &mut d);
        ensure!(d == 26 + 16 * m.e.len(), "the image of {} edges is {} long", m.e.len(), d);
        free_gphrx_bytes_buffer(l, d);
        let p = gphrx_find_avg_pool_matrix(h, 1 + m.n % 3);
        let l = gphrx_matrix_get_entry_list(p, &mut e);
        free_gphrx_matrix_entry_list(l, e);
        if m.n < 60 {
            free_gphrx_string_buffer(gphrx_matrix_to_string(p));
            free_gphrx_string_buffer(gphrx_matrix_string(h));
        }
        free_gphrx_matrix(p);
        let k = gphrx_compress(h, 1);
        let l = gphrx_compressed_graph_to_bytes(k, &mut f);
        free_gphrx_bytes_buffer(l, f);
        free_gphrx_graph(gphrx_decompress(k));
        free_gphrx_compressed_graph(k);
    }
    let after = live();
    ensure!(before == after, "{} edges, {} vertices: {} blocks / {} bytes remain after lists, images and objects were released", m.e.len(), m.n, after.0 - before.0, after.1 - before.1);
    cx.count("lists and buffers released", 6);
    Ok(())
}

// ------------------------------------------------------------------ the others

fn matrices(cx: &mut Ctx) -> Res {
    let j = cx.idx - FIRST;
    let shape = j & 3;
    cx.nontrivial = true;
    cx.feed(j);
    let way = j >> 2;
    cx.say(|| format!("matrices growing cell by cell (shape {}, way {})", shape, way));
    let mut a = CsrSquareMatrix::<f64>::new();
    let mut b = CsrSquareMatrix::<u64>::new();
    let mut z = CsrAdjacencyMatrix::new();
    let mut want: BTreeMap<(u64, u64), u64> = BTreeMap::new();
    let mut dim = 0;
    let most = if way == 3 { 6000 } else { MOST };
    let judge = |a: &CsrSquareMatrix<f64>, b: &CsrSquareMatrix<u64>, z: &CsrAdjacencyMatrix, want: &BTreeMap<(u64, u64), u64>, dim: u64, at: (u64, u64)| -> Res {
        let n = want.len() as u64;
        ensure!((a.dimension(), b.dimension(), z.dimension()) == (dim, dim, dim), "{} cells: dimensions {:?}, expected {}", n, (a.dimension(), b.dimension(), z.dimension()), dim);
        ensure!((a.entry_count(), b.entry_count(), z.entry_count()) == (n, n, n), "{} cells: counted {:?}", n, (a.entry_count(), b.entry_count(), z.entry_count()));
        let mut seen = (0, 0, 0);
        for (v, c, r) in a {
            ensure!(want.get(&(c, r)).map(|x| *x as f64) == Some(v), "{} cells: ({},{}) iterates as {}", n, c, r, v);
            seen.0 += 1;
        }
        for (v, c, r) in b {
            ensure!(want.get(&(c, r)) == Some(&v), "{} cells: ({},{}) iterates as {}", n, c, r, v);
            seen.1 += 1;
        }
        for (c, r) in z {
            ensure!(want.contains_key(&(c, r)), "{} cells: ({},{}) is iterated", n, c, r);
            seen.2 += 1;
        }
        ensure!(seen == (n, n, n), "{} cells: {:?} are iterated", n, seen);
        for (k, v) in want {
            ensure!(a.get_entry(k.0, k.1) == *v as f64 && b.get_entry(k.0, k.1) == *v && z.get_entry(k.0, k.1) == 1, "{} cells: {:?} reads {}, {}, {}", n, k, a.get_entry(k.0, k.1), b.get_entry(k.0, k.1), z.get_entry(k.0, k.1));
        }
        let col: Vec<u64> = want.keys().filter(|k| k.0 == at.0).map(|k| k.1).collect();
        let row: Vec<u64> = want.keys().filter(|k| k.1 == at.1).map(|k| k.0).collect();
        let (mut c, mut r) = (z.get_sparse_col_vector(at.0), z.get_sparse_row_vector(at.1));
        c.sort_unstable();
        r.sort_unstable();
        ensure!(c == col && r == row, "{} cells: column {} lists {} cells and row {} lists {}, expected {} and {}", n, at.0, c.len(), at.1, r.len(), col.len(), row.len());
        ensure!(z.col_nonzero_entry_count(at.0) == col.len() as u64 && z.row_nonzero_entry_count(at.1) == row.len() as u64, "{} cells: column or row count differs", n);
        Ok(())
    };
    let mut sizes = 0;
    for k in 0..most {
        let (c, r) = if shape < 2 { let (x, y) = edge(shape, k); (x + k / MOST * 400, y) } else { edge(shape, k) };
        let v = 1 + k % 9;
        if way % 2 == 0 || k % 2 == 0 {
            a.set_entry(v as f64, c, r);
            b.set_entry(v, c, r);
        } else {
            for _ in 0..v {
                a.increment_entry(c, r);
                b.increment_entry(c, r);
            }
        }
        z.set_entry(1, c, r);
        want.insert((c, r), v);
        dim = dim.max(c.max(r) + 1);
        if way != 3 || k % 64 < 2 || k % 1000 > 997 {
            judge(&a, &b, &z, &want, dim, (c, r))?;
            sizes += 1;
        }
    }
    // and back, by writing zero or by zeroing
    for k in 0..most {
        let (c, r) = if shape < 2 { let (x, y) = edge(shape, k); (x + k / MOST * 400, y) } else { edge(shape, k) };
        if way % 2 == 0 {
            a.set_entry(if k % 2 == 0 { 0.0 } else { -0.0 }, c, r);
            b.set_entry(0, c, r);
            z.set_entry(0, c, r);
        } else {
            a.zero_entry(c, r);
            b.zero_entry(c, r);
            z.zero_entry(c, r);
        }
        want.remove(&(c, r));
        if k % 3 == 0 && way != 3 || want.len() < 70 {
            judge(&a, &b, &z, &want, dim, (c, r))?;
            sizes += 1;
        }
    }
    cx.count("sizes checked one by one", sizes);
    Ok(())
}

fn transcript(cx: &mut Ctx) -> Res {
    let Some(p) = cx.aux.split(';').find_map(|x| x.strip_prefix("plain=")) else { return Err(Fail::Skip("no C program")) };
    let j = cx.idx - FIRST;
    let (und, shape) = (j & 1 == 1, j >> 1 & 3);
    cx.nontrivial = true;
    cx.feed(j);
    cx.say(|| format!("growing edge by edge through C (undirected {}, shape {})", und, shape));
    let mut ops = vec![Op::New(0, und)];
    let most = 1100;
    for k in 0..most {
        let (a, b) = edge(shape, k);
        // one half of the cases: each question at each size
        ops.push(Op::Add(0, a, b));
        match (j >> 3, k % 4) {
            (0, _) => ops.extend([Op::Q(0, 2, 0, 0), Op::Edges(5, 0, false), Op::Free(5), Op::Out(5, 0, a, false), Op::Free(5), Op::In(5, 0, b, false), Op::Free(5)]),
            (_, 0) => ops.extend([Op::Bytes(5, 0, false), Op::Load(6, crate::cscript::Src::Slot(5), false), Op::Q(6, 2, 0, 0), Op::Free(6), Op::Free(5)]),
            (_, 1) => ops.extend([Op::Compress(5, 0, 1), Op::CBytes(6, 5, false), Op::CQ(5, 3, 0, 0), Op::Free(6), Op::Free(5)]),
            (_, 2) => ops.extend([Op::Pool(5, 0, 1 + k % 3), Op::MQ(5, 1), Op::MEntries(6, 5, false), Op::Free(6), Op::Free(5)]),
            _ => ops.extend([Op::Dup(5, 0), Op::Edges(6, 5, false), Op::Free(6), Op::Free(5)]),
        }
    }
    let mut w = World::new();
    let want: Vec<_> = ops.iter().map(|o| cx.setup(|_| w.run(o))).collect();
    let got = drive(p, &ops)?;
    compare(&ops, &want, &got)?;
    cx.count("calls compared with the library", ops.len() as u64);
    Ok(())
}
