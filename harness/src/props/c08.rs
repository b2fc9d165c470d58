//! C08 (save/load round trip) and C09 (published byte formats).
use crate::codec::{self, be64};
use crate::ctx::{viol, Ctx, Fail, Res};
use crate::gen;
use crate::model::{cwords, observe, same, Model};
use crate::props::c01;
use graphrox::builder::CompressedGraphBuilder;
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use std::collections::BTreeMap;

fn save(g: &Graph) -> Result<Vec<u8>, Fail> {
    g.to_bytes().map_err(|e| Fail::Violation(format!("to_bytes failed: {}", e)))
}

/// A compressed graph and the block words it was made of.
pub fn compressed(cx: &mut Ctx) -> Result<(CompressedGraph, codec::CModel), Fail> {
    if cx.rng.chance(1, 2) {
        let (g, m) = gen::graph(cx)?;
        let l = if cx.rng.bool() { 1 } else { gen::level(&mut cx.rng) };
        cx.say(|| format!("compress({})", l));
        let c = cx.setup(|_| g.compress(l));
        // what it holds, by its own account
        let w = cx.setup(|_| cwords(&c, m.words().into_keys()));
        let cm = codec::CModel { und: m.und, n: m.n, level: l.clamp(1, 64), w };
        if cx.setup(|_| c.edge_count()) != cm.edge_count() || cx.setup(|_| c.compression_level()) != cm.level || cx.setup(|_| c.vertex_count()) != m.n {
            return Err(Fail::Skip("source compressed graph is incoherent"));
        }
        Ok((c, cm))
    } else {
        let cm = random_cmodel(cx);
        let mut b = CompressedGraphBuilder::new(cm.und, cm.n, cm.level);
        let mut blocks: Vec<_> = cm.w.iter().map(|(k, w)| (*k, *w)).collect();
        cx.rng.shuffle(&mut blocks);
        cx.say(|| format!("built from blocks {:x?}, n={} und={} level={}", blocks.iter().take(6).collect::<Vec<_>>(), cm.n, cm.und, cm.level));
        cx.setup(|cx| {
            for ((c, r), w) in blocks {
                let hw = if cx.rng.bool() { Some(w.count_ones() as u64) } else { None };
                b.add_compressed_matrix_entry(w, c, r, hw);
            }
        });
        let c = unsafe { b.finish() };
        if cx.setup(|_| c.edge_count()) != cm.edge_count() {
            return Err(Fail::Skip("built compressed graph is incoherent"));
        }
        for ((a, b), w) in &cm.w {
            cx.feed(*a);
            cx.feed(*b);
            cx.feed(*w);
        }
        cx.feed(cm.n);
        cx.nontrivial = !cm.w.is_empty();
        Ok((c, cm))
    }
}

/// Consistent block words of any graph, including ones near the top of the id range.
pub fn random_cmodel(cx: &mut Ctx) -> codec::CModel {
    let r = &mut cx.rng;
    let und = r.bool();
    let n = if r.chance(1, 12) { 0 } else if r.bool() { gen::num(r, cx.dict) } else { r.range(1, 200) };
    let bd = codec::block_dim(n);
    let mut e = std::collections::BTreeSet::new();
    let mut m = Model { und, n, e: Default::default() };
    if n > 0 {
        for _ in 0..r.below(8) {
            let at = |r: &mut crate::rng::Rng| match r.below(4) {
                0 => bd - 1,
                1 => r.below(bd.min(3)),
                2 => gen::num(r, cx.dict) % bd,
                _ => r.below(bd),
            };
            let (c, w) = (at(r), at(r));
            let bits = match r.below(5) {
                4 => (0..r.range(2, 5)).fold(0, |a, _| a | 1u64 << r.below(64)),
                0 => u64::MAX,
                1 => 1u64 << r.below(64),
                2 => r.u64() | 1 << 63,
                _ => r.u64() & r.u64(),
            };
            for bit in 0..64u64 {
                let (u, v) = (c as u128 * 8 + bit as u128 % 8, w as u128 * 8 + bit as u128 / 8);
                if bits >> bit & 1 == 1 && u < n as u128 && v < n as u128 {
                    e.insert((u as u64, v as u64));
                    if und {
                        e.insert((v as u64, u as u64));
                    }
                }
            }
        }
    }
    m.e = e;
    codec::CModel { und, n, level: r.range(1, 64) as u8, w: m.words() }
}

pub fn csame(what: &str, c: &CompressedGraph, m: &codec::CModel) -> Result<(), String> {
    if c.is_undirected() != m.und {
        return Err(format!("{}: direction flag changed to undirected={}", what, c.is_undirected()));
    }
    if c.vertex_count() != m.n {
        return Err(format!("{}: vertex count {} instead of {}", what, c.vertex_count(), m.n));
    }
    if c.compression_level() != m.level {
        return Err(format!("{}: level {} instead of {}", what, c.compression_level(), m.level));
    }
    if c.edge_count() != m.edge_count() {
        return Err(format!("{}: edge count {} instead of {}", what, c.edge_count(), m.edge_count()));
    }
    for ((a, b), w) in &m.w {
        let got = c.get_compressed_matrix_entry(*a, *b);
        if got != *w {
            return Err(format!("{}: block ({},{}) reads {:#x} instead of {:#x}", what, a, b, got, w));
        }
        for (x, y) in [(*b, *a), (a ^ 1, *b), (*a, b ^ 1)] {
            let want = m.w.get(&(x, y)).copied().unwrap_or(0);
            if c.get_compressed_matrix_entry(x, y) != want {
                return Err(format!("{}: block ({},{}) reads {:#x} instead of {:#x}", what, x, y, c.get_compressed_matrix_entry(x, y), want));
            }
        }
    }
    Ok(())
}

pub fn round_trip(cx: &mut Ctx) -> Res {
    if cx.rng.chance(2, 5) {
        let (mut c, m) = compressed(cx)?;
        for k in 0..cx.rng.range(1, 3) {
            let b = c.to_bytes().map_err(|e| Fail::Violation(format!("to_bytes failed: {}", e)))?;
            ensure!(b.len() == 42 + 24 * m.w.len(), "image of {} blocks is {} bytes long", m.w.len(), b.len());
            c = match CompressedGraph::try_from(&codec::Placed::new(&b)[..]) {
                Ok(c) => c,
                Err(e) => bad!("generation {}: a saved compressed graph ({} vertices, {} blocks, level {}) does not load: {}", k + 1, m.n, m.w.len(), m.level, e),
            };
            viol(csame(&format!("loaded compressed graph, generation {}", k + 1), &c, &m))?;
            cx.count("compressed generations", 1);
        }
        let d = Model { und: m.und, n: m.n, e: m.edges() };
        let g = cx.setup(|_| c.decompress());
        let o = cx.setup(|_| observe(&g));
        if let Ok(o) = o {
            if let Some(x) = o.diff(&d) {
                bad!("the loaded compressed graph holds other edges: {}", x);
            }
        }
        return Ok(());
    }
    let (mut g, mut m) = gen::graph(cx)?;
    for k in 0..cx.rng.range(1, 4) {
        let b = save(&g)?;
        ensure!(b.len() == 26 + 16 * m.e.len(), "image of {} edges is {} bytes long", m.e.len(), b.len());
        g = match Graph::try_from(&codec::Placed::new(&b)[..]) {
            Ok(g) => g,
            Err(e) => bad!("generation {}: a saved graph does not load: {} ({})", k + 1, e, m.brief()),
        };
        viol(same(&format!("loaded graph, generation {}", k + 1), &g, &m))?;
        for (a, b) in m.e.iter().take(20) {
            ensure!(g.does_edge_exist(*a, *b), "loaded graph, generation {}: edge {}>{} reads as absent", k + 1, a, b);
        }
        cx.count("standard generations", 1);
        // change it, or derive from it, and go again
        match cx.rng.below(4) {
            0 if m.e.len() < 2000 => {
                let pool: Vec<u64> = (0..4).map(|_| gen::id(&mut cx.rng, cx.dict)).chain(m.e.iter().take(3).map(|x| x.1)).collect();
                for _ in 0..cx.rng.range(1, 10) {
                    let op = c01::random_op(cx, &m, &pool);
                    cx.say(|| format!("{:?}", op));
                    c01::apply(&mut g, &op);
                    c01::mirror(&mut m, &op);
                }
            }
            1 => {
                let b = gen::blockdim(&mut cx.rng, cx.dict, m.n);
                g = cx.setup(|_| g.approximate(b, 0.01));
            }
            2 => g = cx.setup(|_| g.compress(2).decompress()),
            _ => {}
        }
        m = cx.setup(|_| observe(&g).map_err(|_| Fail::Skip("unreadable")))?;
        if g.edge_count() != m.e.len() as u64 || m.und && m.asymmetric().is_some() {
            return Err(Fail::Skip("derived graph incoherent"));
        }
    }
    Ok(())
}

const SAMPLES: [(&str, bool); 3] = [("ca-HepPh.gphrx", false), ("ca-HepPh.cgphrx", true), ("ca-AstroPh.cgphrx", true)];
/// Images written down once and for all, as a program that knows only the format would.
fn pinned(cx: &mut Ctx) -> Res {
    let hex = |s: &str| -> Vec<u8> {
        let s: String = s.split_whitespace().collect();
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    };
    let g = hex("7ae71ffd 00000001 0000000000000006 0000000000000003 00 00
        0000000000000001 0000000000000002  0000000000000005 0000000000000000  0000000000000003 0000000000000003");
    let want = Model { und: false, n: 6, e: [(1, 2), (5, 0), (3, 3)].into_iter().collect() };
    match Graph::try_from(&codec::Placed::new(&g)[..]) {
        Ok(x) => viol(same("pinned standard image", &x, &want))?,
        Err(e) => bad!("pinned standard image refused: {}", e),
    }
    let g = hex("7ae71ffd 00000001 8000000000000000 0000000000000002 01 00
        7ffffffffffffffe 0000000000000002  0000000000000002 7ffffffffffffffe");
    let want = Model { und: true, n: 1 << 63, e: [((1 << 63) - 2, 2), (2, (1 << 63) - 2)].into_iter().collect() };
    match Graph::try_from(&codec::Placed::new(&g)[..]) {
        Ok(x) => viol(same("pinned undirected image", &x, &want))?,
        Err(e) => bad!("pinned undirected image refused: {}", e),
    }
    // one block: column 1, row 0; bits 0 (col 8,row 0), 9 (col 9,row 1), 63 would be (15,7)
    let c = hex("71ff7aed 00000002 0000000000000002 0000000000000001 0000000000000003 0000000000000010 00 03
        8000000000000201 0000000000000001 0000000000000000");
    match CompressedGraph::try_from(&codec::Placed::new(&c)[..]) {
        Ok(x) => {
            ensure!(x.compression_level() == 3 && x.vertex_count() == 16 && x.edge_count() == 3 && !x.is_undirected(), "pinned compressed image: header misread");
            for (u, v) in [(8, 0), (9, 1), (15, 7)] {
                ensure!(x.does_edge_exist(u, v), "pinned compressed image: edge {}>{} missing", u, v);
            }
            ensure!(!x.does_edge_exist(8, 1) && !x.does_edge_exist(0, 8) && !x.does_edge_exist(9, 0), "pinned compressed image: edges transposed");
        }
        Err(e) => bad!("pinned compressed image refused: {}", e),
    }
    cx.count("pinned images", 3);
    Ok(())
}

fn sample(cx: &mut Ctx, k: usize) -> Res {
    let (name, comp) = SAMPLES[k];
    let Ok(b) = std::fs::read(format!("/repo/sample-graphs/{}", name)) else {
        return Err(Fail::Skip("sample file not there"));
    };
    cx.say(|| format!("shipped sample {}", name));
    if comp {
        let m = codec::read_compressed(&b).map_err(|_| Fail::Skip("sample file of an older format version"))?;
        match CompressedGraph::try_from(&codec::Placed::new(&b)[..]) {
            Ok(c) => viol(csame(name, &c, &m))?,
            Err(e) => bad!("shipped sample {} does not load: {}", name, e),
        }
    } else {
        let m = codec::read_graph(&b).map_err(|_| Fail::Skip("sample file of an older format version"))?;
        match Graph::try_from(&codec::Placed::new(&b)[..]) {
            Ok(g) => viol(same(name, &g, &m))?,
            Err(e) => bad!("shipped sample {} does not load: {}", name, e),
        }
    }
    cx.count("shipped samples loaded", 1);
    Ok(())
}

pub fn format(cx: &mut Ctx) -> Res {
    if cx.idx < 3 {
        cx.feed(cx.idx);
        cx.nontrivial = true;
        return sample(cx, cx.idx as usize);
    }
    if cx.idx < 20 {
        pinned(cx)?;
    }
    if cx.rng.chance(2, 5) {
        // writer
        if cx.rng.bool() {
            let (c, m) = compressed(cx)?;
            let b = c.to_bytes().map_err(|e| Fail::Violation(format!("to_bytes failed: {}", e)))?;
            ensure!(b.len() >= 42, "compressed image of {} bytes", b.len());
            ensure!(b[..4] == [0x71, 0xff, 0x7a, 0xed] && b[4..8] == [0, 0, 0, 2], "magic/version bytes {:x?}", &b[..8]);
            ensure!(be64(&b, 8) == codec::block_dim(m.n), "dimension field {} for {} vertices", be64(&b, 8), m.n);
            ensure!(be64(&b, 16) == m.w.len() as u64, "block count field {} for {} blocks", be64(&b, 16), m.w.len());
            ensure!(be64(&b, 24) == m.edge_count(), "edge count field {} for {} edges", be64(&b, 24), m.edge_count());
            ensure!(be64(&b, 32) == m.n, "vertex count field {} for {} vertices", be64(&b, 32), m.n);
            ensure!(b[40] == m.und as u8, "direction byte {}", b[40]);
            ensure!(b[41] == m.level, "level byte {} for level {}", b[41], m.level);
            ensure!(b.len() == 42 + 24 * m.w.len(), "{} bytes for {} blocks", b.len(), m.w.len());
            let mut got = BTreeMap::new();
            for k in 0..m.w.len() {
                let at = 42 + 24 * k;
                got.insert((be64(&b, at + 8), be64(&b, at + 16)), be64(&b, at));
            }
            ensure!(got == m.w, "block records {:x?}, expected {:x?}", got.iter().take(4).collect::<Vec<_>>(), m.w.iter().take(4).collect::<Vec<_>>());
            cx.count("compressed images parsed", 1);
        } else {
            let (g, m) = gen::graph(cx)?;
            let b = save(&g)?;
            ensure!(b.len() == 26 + 16 * m.e.len(), "{} bytes for {} edges", b.len(), m.e.len());
            ensure!(b[..4] == [0x7a, 0xe7, 0x1f, 0xfd] && b[4..8] == [0, 0, 0, 1], "magic/version bytes {:x?}", &b[..8]);
            ensure!(be64(&b, 8) == m.n, "vertex count field {} for {} vertices", be64(&b, 8), m.n);
            ensure!(be64(&b, 16) == m.e.len() as u64, "edge count field {} for {} edges", be64(&b, 16), m.e.len());
            ensure!(b[24] == m.und as u8 && b[25] == 0, "flag bytes {} {}", b[24], b[25]);
            let got: std::collections::BTreeSet<_> = (0..m.e.len()).map(|k| (be64(&b, 26 + 16 * k), be64(&b, 34 + 16 * k))).collect();
            ensure!(got == m.e, "records {:?}, expected {:?}", got.iter().take(4).collect::<Vec<_>>(), m.e.iter().take(4).collect::<Vec<_>>());
            cx.count("standard images parsed", 1);
        }
    } else if cx.rng.bool() {
        // reader, compressed
        let m = random_cmodel(cx);
        let mut w: Vec<_> = m.w.iter().map(|(k, v)| (*k, *v)).collect();
        cx.rng.shuffle(&mut w);
        for x in &w {
            cx.feed(x.1);
            cx.feed(x.0 .0);
        }
        cx.feed(m.n);
        cx.nontrivial = !w.is_empty();
        cx.say(|| format!("foreign compressed image n={} und={} level={} blocks {:x?}", m.n, m.und, m.level, w.iter().take(5).collect::<Vec<_>>()));
        let b = codec::write_compressed(m.und, m.n, m.level, &w);
        match CompressedGraph::try_from(&codec::Placed::new(&b)[..]) {
            Ok(c) => {
                viol(csame("foreign compressed image", &c, &m))?;
                for (u, v) in m.edges().iter().take(64) {
                    ensure!(c.does_edge_exist(*u, *v), "foreign compressed image: edge {}>{} missing", u, v);
                }
            }
            Err(e) => bad!("foreign compressed image refused: {} (n={}, {} blocks)", e, m.n, w.len()),
        }
        cx.count("foreign compressed images read", 1);
    } else {
        let s = gen::any(cx);
        let m = s.model();
        let mut e: Vec<_> = m.e.iter().copied().collect();
        cx.rng.shuffle(&mut e);
        for x in &e {
            cx.feed(x.0);
            cx.feed(x.1);
        }
        cx.feed(m.n);
        cx.nontrivial = !e.is_empty();
        cx.say(|| format!("foreign image: {}", m.brief()));
        let b = codec::write_graph(m.und, m.n, &e);
        match Graph::try_from(&codec::Placed::new(&b)[..]) {
            Ok(g) => viol(same("foreign image", &g, &m))?,
            Err(e) => bad!("foreign image refused: {} ({})", e, m.brief()),
        }
        cx.count("foreign standard images read", 1);
    }
    Ok(())
}
