//! C20: all views of a compressed graph describe one edge set; the builder agrees with compress.
use crate::codec;
use crate::ctx::{viol, Ctx, Res};
use crate::gen;
use crate::model::{cwords, observe, unpack, Model};
use crate::props::{c08, c12};
use graphrox::builder::CompressedGraphBuilder;
use graphrox::{CompressedGraph, GraphRepresentation};
use std::collections::{BTreeMap, BTreeSet};

/// Every view of `c` must show exactly the blocks `m.w`.
fn views(cx: &mut Ctx, how: &str, c: &CompressedGraph, m: &codec::CModel) -> Res {
    viol(c08::csame(how, c, m))?;
    let edges = m.edges();
    let mut probes: Vec<(u64, u64)> = vec![];
    for (bc, br) in m.w.keys().take(6) {
        for bit in 0..64u64 {
            probes.push((bc * 8 + bit % 8, br * 8 + bit / 8));
        }
        // just outside the block, and transposed
        probes.push((bc.wrapping_mul(8).wrapping_sub(1), *br * 8));
        probes.push((bc * 8, br.wrapping_mul(8).wrapping_add(8)));
        probes.push((br * 8, bc * 8));
    }
    let n = m.n;
    for v in [0, 1, n / 2, n.wrapping_sub(1), n, n.wrapping_add(1), n.wrapping_add(7), n | 7, u64::MAX] {
        for w in [0, n.wrapping_sub(1), n, u64::MAX] {
            probes.push((v, w));
        }
    }
    for e in edges.iter().take(200) {
        probes.push(*e);
    }
    for (u, v) in probes {
        let want = edges.contains(&(u, v));
        ensure!(c.does_edge_exist(u, v) == want, "{}: does_edge_exist({}, {}) = {} but its blocks say {}", how, u, v, !want, want);
        ensure!(!(c.does_edge_exist(u, v) && (u >= n || v >= n)), "{}: edge {}>{} outside the {} vertices", how, u, v, n);
        cx.count("edge probes", 1);
    }
    let d = c.decompress();
    let o = viol(observe(&d))?;
    if let Some(x) = o.diff(&Model { und: m.und, n, e: edges.clone() }) {
        bad!("{}: decompressed graph: {}", how, x);
    }
    let Ok(b) = c.to_bytes() else { bad!("{}: to_bytes failed", how) };
    match codec::read_compressed(&b) {
        Ok(x) => ensure!(x == *m, "{}: saved bytes describe other content: {} blocks instead of {}", how, x.w.len(), m.w.len()),
        Err(e) => bad!("{}: saved bytes are not a consistent image ({})", how, e),
    }
    let bd = codec::block_dim(n);
    if bd <= 24 {
        let want = c12::render(bd, "0", &m.w.iter().map(|(k, w)| (*k, w.to_string())).collect());
        match c.matrix_string() {
            Ok(t) => {
                // compare cell by cell; the exact layout is not this property's business
                let cells = |s: &str| -> Vec<String> { s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.to_string()).collect() };
                ensure!(cells(&t) == cells(&want), "{}: matrix text shows other words: {:?}, expected {:?}", how, t, want);
            }
            Err(e) => bad!("{}: matrix_string failed: {}", how, e),
        }
        cx.count("texts parsed", 1);
    }
    cx.count("compressed graphs viewed", 1);
    Ok(())
}

fn by_hand(cx: &mut Ctx, m: &codec::CModel, level: u8) -> CompressedGraph {
    let mut blocks: Vec<_> = m.w.iter().map(|(k, w)| (*k, *w)).collect();
    cx.rng.shuffle(&mut blocks);
    let style = cx.rng.below(3);
    let mut b = CompressedGraphBuilder::new(m.und, m.n, level);
    for ((c, r), w) in blocks {
        let hw = match style {
            0 => None,
            1 => Some(w.count_ones() as u64),
            _ => cx.rng.bool().then_some(w.count_ones() as u64),
        };
        b.add_compressed_matrix_entry(w, c, r, hw);
    }
    unsafe { b.finish() }
}

pub fn case(cx: &mut Ctx) -> Res {
    let big = cx.big();
    match if big { 0 } else { cx.rng.below(4) } {
        0 | 1 => {
            // by compression, then the same blocks by hand
            let el = cx.rng.range(1, 64);
            let s = if big {
                cx.count("large graphs", 1);
                gen::big(&mut cx.rng).0
            } else if cx.rng.bool() { gen::blocky(&mut cx.rng, cx.dict, 8, &[el]) } else { gen::edges(&mut cx.rng, cx.dict) };
            let (g, src) = gen::graph_of(cx, &s)?;
            if src.e.len() > 5000 && !big {
                return Ok(());
            }
            let l = if big { 1 } else if cx.rng.bool() { el as u8 } else { gen::level(&mut cx.rng) };
            cx.feed(l as u64);
            cx.say(|| format!("compress({})", l));
            let c = g.compress(l);
            let blocks: BTreeSet<_> = src.e.iter().map(|(a, b)| (a / 8, b / 8)).collect();
            let w: BTreeMap<_, _> = cwords(&c, blocks.into_iter());
            let m = codec::CModel { und: src.und, n: src.n, level: l.clamp(1, 64), w };
            views(cx, "compressed", &c, &m)?;
            ensure!(unpack(&m.w).len() as u64 == c.edge_count(), "edge_count {} but its words hold {}", c.edge_count(), unpack(&m.w).len());
            let h = by_hand(cx, &m, l);
            views(cx, "built by hand", &h, &m)?;
            let copy = h.clone();
            drop(h);
            views(cx, "copy", &copy, &m)
        }
        2 => {
            let m = c08::random_cmodel(cx);
            feed(cx, &m);
            let l = if m.level == 1 { 0 } else if m.level == 64 { 64 + cx.rng.below(192) as u8 } else { m.level };
            let h = by_hand(cx, &m, l);
            views(cx, "built by hand", &h, &m)
        }
        _ => {
            let m = c08::random_cmodel(cx);
            feed(cx, &m);
            let mut w: Vec<_> = m.w.iter().map(|(k, v)| (*k, *v)).collect();
            cx.rng.shuffle(&mut w);
            if cx.rng.chance(1, 3) && !w.is_empty() {
                // an image whose records repeat must not come back as an incoherent graph
                let k = cx.rng.us(w.len());
                w.push(w[k]);
                if cx.rng.bool() && w[k].1.count_ones() > 1 {
                    w.last_mut().unwrap().1 &= w[k].1 - 1;
                }
                let b = codec::write_compressed(m.und, m.n, m.level, &w);
                if let Ok(c) = CompressedGraph::try_from(&codec::Placed::new(&b)[..]) {
                    let held: BTreeMap<_, _> = cwords(&c, m.w.keys().copied());
                    let m = codec::CModel { w: held, ..m };
                    views(cx, "loaded from an image with a repeated block", &c, &m)?;
                }
                return Ok(());
            }
            let b = codec::write_compressed(m.und, m.n, m.level, &w);
            let Ok(c) = cx.setup(|_| CompressedGraph::try_from(&codec::Placed::new(&b)[..])) else { return Err(crate::ctx::Fail::Skip("image refused")) };
            views(cx, "loaded", &c, &m)
        }
    }
}

fn feed(cx: &mut Ctx, m: &codec::CModel) {
    cx.feed(m.n);
    for ((a, b), w) in &m.w {
        cx.feed(*a);
        cx.feed(*b);
        cx.feed(*w);
    }
    cx.nontrivial = !m.w.is_empty();
    cx.say(|| format!("n={} und={} level={} blocks {:x?}", m.n, m.und, m.level, m.w.iter().take(6).collect::<Vec<_>>()));
}
