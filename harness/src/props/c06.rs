//! C06 (compression census) and C07 (decompression).
use crate::ctx::{viol, Ctx, Fail, Res};
use crate::gen;
use crate::model::{cwords, observe, Model};
use crate::props::c01::note;
use crate::props::c04::changed;
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::{BTreeMap, BTreeSet};

fn source(cx: &mut Ctx) -> Result<(Graph, Model, u8), Fail> {
    let l = gen::level(&mut cx.rng);
    let el = l.clamp(1, 64) as u64;
    if cx.big() {
        let (s, _) = gen::big(&mut cx.rng);
        let (g, m) = gen::graph_of(cx, &s)?;
        cx.count("large graphs", 1);
        return Ok((g, m, if cx.rng.bool() { 1 } else { l }));
    }
    if cx.rng.chance(1, 400) {
        // a word with one particular bit pattern, one graph per population
        let mut s = gen::Spec { und: false, n: 520, edges: vec![], shape: "ladder" };
        for k in 1..=64u64 {
            gen::fill_block(&mut cx.rng, &mut s.edges, 520, 8, k, (k * 7) % 65, k);
        }
        let (g, m) = gen::graph_of(cx, &s)?;
        return Ok((g, m, l));
    }
    let s = if cx.rng.chance(2, 3) { gen::blocky(&mut cx.rng, cx.dict, 8, &[el, el, 32]) } else { gen::edges(&mut cx.rng, cx.dict) };
    let (g, m) = gen::graph_of(cx, &s)?;
    Ok((g, m, l))
}

pub fn compress(cx: &mut Ctx) -> Res {
    let (mut g, mut m, l) = source(cx)?;
    let levels = compress_check(cx, &g, &m, vec![l])?;
    while changed(cx, &mut g, &mut m)? {
        compress_check(cx, &g, &m, levels.clone()).map_err(|e| note(e, || "asked again after a change in place".into()))?;
    }
    Ok(())
}

/// What the library's compression says, against counting.
pub fn compress_check(cx: &mut Ctx, g: &Graph, m: &Model, mut levels: Vec<u8>) -> Result<Vec<u8>, Fail> {
    let words = m.words();
    // exactly the populations that occur, and one more
    if let Some(k) = words.values().map(|w| w.count_ones() as u8).max() {
        levels.push(k);
        levels.push(k.saturating_add(1));
    }
    if let Some(k) = words.values().map(|w| w.count_ones() as u8).min() {
        levels.push(k);
    }
    for l in levels.iter().copied() {
        cx.feed(l as u64);
        cx.say(|| format!("compress({})", l));
        let c = g.compress(l);
        let el = l.clamp(1, 64);
        ensure!(c.compression_level() == el, "compress({}) reports level {}", l, c.compression_level());
        ensure!(c.vertex_count() == m.n, "compressed graph has {} vertices instead of {}", c.vertex_count(), m.n);
        ensure!(c.is_undirected() == m.und, "compression changed the direction flag");
        let mut ones = 0u64;
        for ((x, y), w) in &words {
            let k = w.count_ones();
            let want = if k >= el as u32 { *w } else { 0 };
            let got = c.get_compressed_matrix_entry(*x, *y);
            ensure!(got == want, "level {}: block ({},{}) with {} ones is encoded as {:#x}, expected {:#x} (graph of {} vertices)", el, x, y, k, got, want, m.n);
            ones += want.count_ones() as u64;
            cx.count("blocks compared", 1);
            if k as u8 == el {
                cx.count("blocks exactly at the level", 1);
            }
        }
        ensure!(c.edge_count() == ones, "level {}: edge count {} but the kept blocks hold {} ones", el, c.edge_count(), ones);
        let bd = crate::codec::block_dim(m.n);
        for (x, y) in words.keys().take(40) {
            for (p, q) in [(*y, *x), (x.wrapping_add(1), *y), (*x, y.wrapping_add(1)), (x.wrapping_sub(1), *y), (bd - 1, bd - 1), (0, 0), (bd, 0)] {
                if !words.contains_key(&(p, q)) {
                    ensure!(c.get_compressed_matrix_entry(p, q) == 0, "empty block ({},{}) is encoded as {:#x}", p, q, c.get_compressed_matrix_entry(p, q));
                }
            }
        }
        // the same through the edge queries
        for (k, (u, v)) in m.e.iter().enumerate() {
            if k >= 48 {
                break;
            }
            for (a, b) in [(*u, *v), (*v, *u), (u ^ 1, *v), (*u, v ^ 8)] {
                let w = words.get(&(a / 8, b / 8)).copied().unwrap_or(0);
                let want = w.count_ones() >= el as u32 && w >> (8 * (b % 8) + a % 8) & 1 == 1;
                ensure!(c.does_edge_exist(a, b) == want, "level {}: edge {}>{} reads {} although its block holds {} ones", el, a, b, !want, w.count_ones());
            }
            cx.count("edges of compressed graphs queried", 4);
        }
        cx.count("compressions", 1);
    }
    Ok(levels)
}

fn kept(c: &CompressedGraph, m: &Model) -> BTreeMap<(u64, u64), u64> {
    let blocks: BTreeSet<(u64, u64)> = m.e.iter().map(|(a, b)| (a / 8, b / 8)).collect();
    cwords(c, blocks.into_iter())
}

pub fn decompress(cx: &mut Ctx) -> Res {
    let (g, m, l) = source(cx)?;
    let mut cur = m.clone();
    let mut g = g;
    for round in 0..cx.rng.range(1, 3) {
        let l = if round == 0 || cx.rng.bool() { l } else { gen::level(&mut cx.rng) };
        cx.feed(l as u64);
        cx.say(|| format!("compress({}) / decompress", l));
        let c = g.compress(l);
        let k = kept(&c, &cur);
        let want: BTreeSet<_> = cur.e.iter().filter(|(a, b)| k.contains_key(&(a / 8, b / 8))).copied().collect();
        let d = c.decompress();
        let o = viol(observe(&d))?;
        let want = Model { und: cur.und, n: cur.n, e: want };
        if let Some(x) = o.diff(&want) {
            bad!("decompressing (level {}) a graph with {} vertices and {} edges: {}", l, cur.n, cur.e.len(), x);
        }
        ensure!(d.edge_count() == want.e.len() as u64, "decompressed graph counts {} edges, has {}", d.edge_count(), want.e.len());
        if l <= 1 {
            if let Some(x) = o.diff(&cur) {
                bad!("level {} must be lossless: {}", l, x);
            }
        }
        cx.count("decompressions", 1);
        cx.count("edges compared", want.e.len() as u64);
        // again at the same level: nothing changes
        let c2 = d.compress(l);
        ensure!(c2.edge_count() == c.edge_count(), "compressing the decompressed graph again keeps {} edges instead of {}", c2.edge_count(), c.edge_count());
        let k2 = kept(&c2, &cur);
        ensure!(k2 == k, "compressing the decompressed graph again keeps other blocks: {} and {}", k2.len(), k.len());
        let d2 = viol(observe(&c2.decompress()))?;
        if let Some(x) = d2.diff(&o) {
            bad!("second compress/decompress at level {}: {}", l, x);
        }
        // a higher level never adds an edge
        let hi = l.saturating_add(1 + cx.rng.below(5) as u8);
        let h = viol(observe(&g.compress(hi).decompress()))?;
        if let Some(x) = h.e.iter().find(|x| !o.e.contains(x)) {
            bad!("level {} has edge {:?} which level {} has not", hi, x, l);
        }
        if cx.rng.chance(1, 3) {
            // the same variable goes on, changed in place
            changed(cx, &mut g, &mut cur)?;
        } else {
            g = d;
            cur = o;
        }
    }
    Ok(())
}
