//! C10 (verdicts on byte images) and C11 (hostile bytes).
use crate::codec::{self, be64, set64};
use crate::ctx::{viol, Ctx, Fail, Res};
use crate::gen;
use crate::model::{same, Model};
use crate::props::c08;
use graphrox::error::GraphRoxError;
use graphrox::{CompressedGraph, Graph, GraphRepresentation};

/// Damage an image. Deliberately keeps most of it plausible.
fn corrupt(cx: &mut Ctx, b: &mut Vec<u8>, comp: bool) {
    let (head, rec) = if comp { (42, 24) } else { (26, 16) };
    let n_at = if comp { 32 } else { 8 };
    if b.len() < head {
        return;
    }
    let nrec = (b.len() - head) / rec;
    let r = &mut cx.rng;
    let kind = r.below(24);
    let what;
    match kind {
        0 => {
            what = "bit flip anywhere";
            let k = r.us(b.len());
            b[k] ^= 1 << r.below(8);
        }
        1 => {
            what = "header byte";
            let k = r.us(head);
            b[k] = *r.pick(&[0u8, 1, 2, 3, 63, 64, 65, 128, 254, 255]);
        }
        2 => {
            what = "truncated";
            let k = r.range(1, 40.min(b.len() as u64)) as usize;
            let l = b.len();
            b.truncate(l - k);
        }
        3 => {
            what = "cut at a record boundary";
            if nrec > 0 {
                let l = b.len();
                b.truncate(l - rec);
            }
        }
        4 => {
            what = "extended";
            let k = r.range(1, 40);
            for _ in 0..k {
                b.push(r.u64() as u8);
            }
        }
        5 | 6 => {
            what = "record duplicated";
            if nrec > 0 {
                let k = head + rec * r.us(nrec);
                let c = b[k..k + rec].to_vec();
                b.extend_from_slice(&c);
                fix_counts(b, comp, r.chance(2, 3));
            }
        }
        7 | 8 => {
            what = "record overwritten by a copy of another";
            if nrec > 1 {
                let (i, j) = (head + rec * r.us(nrec), head + rec * r.us(nrec));
                let c = b[i..i + rec].to_vec();
                b[j..j + rec].copy_from_slice(&c);
                fix_counts(b, comp, r.chance(2, 3));
            }
        }
        9 | 10 => {
            what = "record removed";
            if nrec > 0 {
                let k = head + rec * r.us(nrec);
                b.drain(k..k + rec);
                fix_counts(b, comp, r.chance(3, 4));
            }
        }
        11 | 12 => {
            what = "coordinate changed";
            if nrec > 0 {
                let at = head + rec * r.us(nrec) + if comp { 8 } else { 0 } + 8 * r.us(2);
                let n = be64(b, n_at);
                let lim = if comp { be64(b, 8) } else { n };
                let old = be64(b, at);
                let v = *r.pick(&[lim, lim.wrapping_sub(1), lim.wrapping_add(1), old.wrapping_add(1), old.wrapping_sub(1), 0, u64::MAX, old ^ 1 << 32, old ^ 1 << 63, old.wrapping_add(1 << 61)]);
                set64(b, at, v);
            }
        }
        13 => {
            what = "record transposed";
            if nrec > 0 {
                let at = head + rec * r.us(nrec) + if comp { 8 } else { 0 };
                let (x, y) = (be64(b, at), be64(b, at + 8));
                set64(b, at, y);
                set64(b, at + 8, x);
            }
        }
        14 => {
            what = "record replaced by a fresh one";
            if nrec > 0 {
                let at = head + rec * r.us(nrec) + if comp { 8 } else { 0 };
                let lim = be64(b, 8);
                set64(b, at, r.below(lim.max(1)));
                set64(b, at + 8, r.below(lim.max(1)));
            }
        }
        15 | 16 if comp => {
            what = "word changed";
            if nrec > 0 {
                let at = head + rec * r.us(nrec);
                let old = be64(b, at);
                let v = match r.below(6) {
                    0 => 0,
                    1 => u64::MAX,
                    2 | 3 => old ^ 1 << r.below(64),
                    4 => {
                        // same number of ones, elsewhere
                        if r.bool() { old.rotate_left(1) } else { old.reverse_bits() }
                    }
                    _ => r.u64(),
                };
                set64(b, at, v);
                fix_counts(b, comp, r.chance(3, 4));
            }
        }
        15 | 16 => {
            what = "direction flag toggled";
            b[24] ^= 1;
        }
        17 => {
            what = "direction flag";
            let k = if comp { 40 } else { 24 };
            b[k] = if r.chance(2, 3) { b[k] ^ 1 } else { r.range(2, 255) as u8 };
        }
        18 | 19 => {
            what = "count or dimension field";
            let at = *r.pick(if comp { &[8usize, 16, 24, 32][..] } else { &[8, 16][..] });
            let old = be64(b, at);
            let v = *r.pick(&[
                old.wrapping_add(1),
                old.wrapping_sub(1),
                old.wrapping_add(8),
                old.wrapping_add(256),
                old.wrapping_sub(256),
                old.wrapping_add(65_536),
                old.wrapping_mul(2),
                0,
                1,
                u64::MAX,
                old ^ 1 << 32,
                old ^ 1 << 63,
                old.wrapping_add(1 << 60),
                old.wrapping_add(1 << 61),
                old.wrapping_add(u64::MAX / 24 + 1),
            ]);
            set64(b, at, v);
        }
        20 => {
            what = "vertex count changed, block dimension kept in step";
            let old = be64(b, n_at);
            let v = match r.below(4) {
                0 => old.wrapping_add(1 + r.below(9)),
                1 => old.saturating_sub(1 + r.below(9)),
                2 => gen::num(r, cx.dict),
                _ => old | 7,
            };
            set64(b, n_at, v);
            if comp {
                set64(b, 8, codec::block_dim(v));
            }
        }
        21 => {
            what = "records duplicated so many times";
            if nrec > 0 && b.len() < 100_000 {
                let one = r.bool();
                let mut k = head + rec * r.us(nrec);
                let times = match r.below(400) {
                    0 => *r.pick(&[65_535u64, 65_536, 65_537]),
                    1..=4 => *r.pick(&[4096u64, 1024, 8192]),
                    5..=19 => (gen::num(r, cx.dict) % 3000).max(1),
                    20..=119 => *r.pick(&[255u64, 256, 257, 512, 768]),
                    _ => r.range(2, 130),
                };
                for _ in 0..times {
                    if !one {
                        k = head + rec * r.us(nrec);
                    }
                    let c = b[k..k + rec].to_vec();
                    b.extend_from_slice(&c);
                }
                fix_counts(b, comp, r.chance(9, 10));
            }
        }
        22 => {
            what = "so many one-sided records, flagged as undirected";
            if b.len() < 100_000 {
                let n = be64(b, 8);
                let old = be64(b, 16).min(nrec as u64);
                let times = if r.chance(1, 4) { *r.pick(&[255u64, 256, 257, 512]) } else { r.range(2, 40) };
                if n > times + 2 && n < 1 << 60 && old < 1000 {
                    // along the last column, where nothing else is likely to be
                    for i in 0..times {
                        if comp {
                            b.extend_from_slice(&(1u64 << (i % 8)).to_be_bytes());
                        }
                        b.extend_from_slice(&(n - 2).to_be_bytes());
                        b.extend_from_slice(&i.to_be_bytes());
                    }
                    b[if comp { 40 } else { 24 }] = 1;
                    fix_counts(b, comp, true);
                }
            }
        }
        _ => {
            what = "level / weighted byte";
            let k = if comp { 41 } else { 25 };
            b[k] = *r.pick(&[0u8, 1, 2, 64, 65, 128, 255]);
        }
    }
    cx.say(|| format!("corruption: {}", what));
    cx.count("corruptions", 1);
}

fn fix_counts(b: &mut [u8], comp: bool, yes: bool) {
    if !yes {
        return;
    }
    let (head, rec) = if comp { (42, 24) } else { (26, 16) };
    let nrec = (b.len() - head) / rec;
    set64(b, 16, nrec as u64);
    if comp {
        let ones: u64 = (0..nrec).map(|k| be64(b, head + rec * k).count_ones() as u64).sum();
        set64(b, 24, ones);
    }
}

fn valid_image(cx: &mut Ctx) -> (Vec<u8>, bool) {
    let comp = cx.rng.bool();
    if cx.big() {
        // more than 2^16 records
        let m = gen::big(&mut cx.rng).0.model();
        cx.count("large images", 1);
        if comp {
            let mut w: Vec<_> = m.words().into_iter().collect();
            cx.rng.shuffle(&mut w);
            return (codec::write_compressed(m.und, m.n, 1, &w), true);
        }
        let mut e: Vec<_> = m.e.iter().copied().collect();
        cx.rng.shuffle(&mut e);
        return (codec::write_graph(m.und, m.n, &e), false);
    }
    if comp {
        let m = c08::random_cmodel(cx);
        let mut w: Vec<_> = m.w.iter().map(|(k, v)| (*k, *v)).collect();
        cx.rng.shuffle(&mut w);
        (codec::write_compressed(m.und, m.n, m.level, &w), true)
    } else {
        let mut s = gen::edges(&mut cx.rng, cx.dict);
        if s.edges.len() > 200 {
            s.edges.truncate(200);
        }
        let m = s.model();
        let mut e: Vec<_> = m.e.iter().copied().collect();
        cx.rng.shuffle(&mut e);
        (codec::write_graph(m.und, m.n, &e), false)
    }
}

fn hexdump(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(400) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 400 {
        s.push_str("...");
    }
    s
}

pub fn verdicts(cx: &mut Ctx) -> Res {
    let (mut b, comp) = valid_image(cx);
    let times = match cx.rng.below(10) {
        0 | 1 => 0,
        2..=6 => 1,
        _ => cx.rng.range(2, 3),
    };
    let whole = b.clone();
    for _ in 0..times {
        corrupt(cx, &mut b, comp);
    }
    for x in b.chunks(8) {
        cx.feed(x.iter().fold(0, |a, c| a << 8 | *c as u64));
    }
    cx.nontrivial = b.len() > 42;
    cx.say(|| hexdump(&b));
    // what was decoded just before must make no difference
    let (before, after) = (times > 0 && cx.rng.chance(1, 3), times > 0 && cx.rng.chance(1, 8));
    if before {
        judge(cx, &whole)?;
        cx.count("images decoded right after the one they were made from", 1);
    }
    judge(cx, &b).map_err(|e| if before { crate::props::c01::note(e, || format!("decoded right after {}", hexdump(&whole))) } else { e })?;
    if after {
        judge(cx, &whole).map_err(|e| crate::props::c01::note(e, || format!("decoded right after {}", hexdump(&b))))?;
    }
    Ok(())
}

/// Both decoders' verdicts on an image.
pub fn judge(cx: &mut Ctx, b: &[u8]) -> Res {
    let via_c = cx.rng.chance(1, 4);
    // either decoder gets it; the other one must refuse it on the magic number
    let want = codec::read_graph(b);
    let got = Graph::try_from(&codec::Placed::new(b)[..]);
    verdict(cx, "standard", &want.as_ref().map(|_| ()), got.is_ok(), b)?;
    if let Err(e) = &got {
        ensure!(matches!(e, GraphRoxError::InvalidFormat(_)), "a standard image is refused with {:?}, not as an invalid format: {}", e, hexdump(b));
    }
    if let (Ok(m), Ok(g)) = (&want, &got) {
        viol(same("accepted standard image", g, m))?;
    }
    let cwant = codec::read_compressed(b);
    let cgot = CompressedGraph::try_from(&codec::Placed::new(b)[..]);
    verdict(cx, "compressed", &cwant.as_ref().map(|_| ()), cgot.is_ok(), b)?;
    if let Err(e) = &cgot {
        ensure!(matches!(e, GraphRoxError::InvalidFormat(_)), "a compressed image is refused with {:?}, not as an invalid format: {}", e, hexdump(b));
    }
    if let (Ok(m), Ok(c)) = (&cwant, &cgot) {
        viol(c08::csame("accepted compressed image", c, m))?;
        for (u, v) in m.edges().iter().take(64) {
            ensure!(c.does_edge_exist(*u, *v), "accepted compressed image lacks its edge {}>{}", u, v);
        }
    }
    if via_c {
        use graphrox_c::*;
        unsafe {
            let mut err = 0xaau8;
            let g = gphrx_from_bytes(b.as_ptr(), b.len(), &mut err);
            verdict(cx, "standard (C)", &want.as_ref().map(|_| ()), !g.graph_ptr.is_null(), b)?;
            ensure!((err == 0) == want.is_ok(), "gphrx_from_bytes stored error code {} for {} image", err, if want.is_ok() { "a valid" } else { "an invalid" });
            free_gphrx_graph(g);
            let mut err = 0xaau8;
            let g = gphrx_compressed_graph_from_bytes(b.as_ptr(), b.len(), &mut err);
            verdict(cx, "compressed (C)", &cwant.as_ref().map(|_| ()), !g.graph_ptr.is_null(), b)?;
            ensure!((err == 0) == cwant.is_ok(), "gphrx_compressed_graph_from_bytes stored error code {} for {} image", err, if cwant.is_ok() { "a valid" } else { "an invalid" });
            free_gphrx_compressed_graph(g);
        }
    }
    Ok(())
}

fn verdict(cx: &mut Ctx, kind: &str, want: &Result<(), &String>, got: bool, b: &[u8]) -> Res {
    match (want, got) {
        (Ok(()), true) => cx.count("accepted, rightly", 1),
        (Err(_), false) => cx.count("rejected, rightly", 1),
        (Ok(()), false) => bad!("a consistent {} image of {} bytes was rejected: {}", kind, b.len(), hexdump(b)),
        (Err(w), true) => bad!("an inconsistent {} image ({}) of {} bytes was accepted: {}", kind, w, b.len(), hexdump(b)),
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

#[cfg(feature = "monalloc")]
pub struct Meter {
    start: usize,
    blocks: u64,
}
#[cfg(feature = "monalloc")]
impl Meter {
    pub fn start() -> Self {
        Meter { start: gxalloc::reset_peak(), blocks: gxalloc::total_blocks() }
    }
    pub fn peak(&self) -> usize {
        gxalloc::peak_bytes().saturating_sub(self.start)
    }
    pub fn blocks(&self) -> u64 {
        gxalloc::total_blocks() - self.blocks
    }
}
#[cfg(not(feature = "monalloc"))]
pub struct Meter;
#[cfg(not(feature = "monalloc"))]
impl Meter {
    pub fn start() -> Self {
        Meter
    }
    pub fn peak(&self) -> usize {
        0
    }
    pub fn blocks(&self) -> u64 {
        0
    }
}

fn hostile_bytes(cx: &mut Ctx) -> Vec<u8> {
    match cx.rng.below(12) {
        0 => {
            // noise, perhaps behind a good magic number
            let len = if cx.rng.bool() { cx.rng.below(80) } else { cx.rng.below(4000) };
            let mut b: Vec<u8> = (0..len).map(|_| cx.rng.u64() as u8).collect();
            let m = *cx.rng.pick(&[codec::G_MAGIC, codec::C_MAGIC, 0]);
            if m != 0 && b.len() >= 8 {
                b[..4].copy_from_slice(&m.to_be_bytes());
                b[4..8].copy_from_slice(&[0, 0, 0, if m == codec::C_MAGIC { 2 } else { 1 }]);
            }
            b
        }
        1..=4 => {
            // a header made of extreme fields, with or without records
            let comp = cx.rng.bool();
            let mut b = Vec::new();
            let r = &mut cx.rng;
            codec::put32(&mut b, if comp { codec::C_MAGIC } else { codec::G_MAGIC });
            codec::put32(&mut b, if comp { 2 } else { 1 });
            let nrec = r.below(5);
            let big = |r: &mut crate::rng::Rng| match r.below(6) {
                0 => u64::MAX - r.below(20),
                1 => u64::MAX / *r.pick(&[2u64, 8, 16, 24]) + r.below(3),
                2 => 1u64 << r.below(64),
                3 => (1u64 << 63) | r.below(100),
                _ => gen::num(r, cx.dict),
            };
            if comp {
                let n = big(r);
                let dim = if r.chance(3, 4) { codec::block_dim(n) } else { big(r) };
                codec::put64(&mut b, dim);
                codec::put64(&mut b, if r.chance(3, 4) { nrec } else { big(r) });
                let mut words = vec![];
                for _ in 0..nrec {
                    let w = if r.bool() { u64::MAX } else { 1 << r.below(64) };
                    let c = if r.bool() { dim.wrapping_sub(1) } else { r.below(dim) };
                    let w2 = if r.bool() { dim.wrapping_sub(1) } else { r.below(dim) };
                    words.push((w, c, w2));
                }
                let ones: u64 = words.iter().map(|w| w.0.count_ones() as u64).sum();
                codec::put64(&mut b, if r.chance(3, 4) { ones } else { big(r) });
                codec::put64(&mut b, n);
                b.push(r.below(2) as u8);
                b.push(r.range(1, 64) as u8);
                for (w, c, x) in words {
                    codec::put64(&mut b, w);
                    codec::put64(&mut b, c);
                    codec::put64(&mut b, x);
                }
            } else {
                let n = big(r);
                codec::put64(&mut b, n);
                codec::put64(&mut b, if r.chance(3, 4) { nrec } else { big(r) });
                b.push(r.below(2) as u8);
                b.push(0);
                for _ in 0..nrec {
                    for _ in 0..2 {
                        let v = if r.bool() { n.wrapping_sub(1) } else { r.below(n) };
                        codec::put64(&mut b, v);
                    }
                }
            }
            b
        }
        5 => {
            // long images
            let comp = cx.rng.bool();
            let k = cx.rng.range(500, 6000);
            if comp {
                let w: Vec<_> = (0..k).map(|i| ((i * 3 % 9000, i % 77), cx.rng.u64() | 1)).collect();
                codec::write_compressed(false, 80_000, 3, &w)
            } else {
                let e: Vec<_> = (0..k).map(|i| (i % 300, i / 300 + cx.rng.below(3) * 1000)).collect();
                codec::write_graph(false, 5000, &e)
            }
        }
        _ => {
            let (mut b, comp) = valid_image(cx);
            for _ in 0..cx.rng.below(4) {
                corrupt(cx, &mut b, comp);
            }
            b
        }
    }
}

/// One very long image per run: time must stay proportional to length.
fn long(cx: &mut Ctx) -> Vec<u8> {
    let k = if cx.tier == crate::ctx::Tier::Thorough { 300_000u64 } else { 60_000 };
    if cx.idx % 2 == 0 {
        let spread = cx.rng.bool();
        let e: Vec<_> = (0..k).map(|i| if spread { (i, i * 7 % k) } else { (i % 3, i) }).collect();
        codec::write_graph(false, k + 1, &e)
    } else {
        let w: Vec<_> = (0..k).map(|i| ((i, i * 7 % k), 1 << cx.rng.below(64))).collect();
        codec::write_compressed(false, 8 * k, 3, &w)
    }
}

/// CPU time of this thread in seconds.
#[cfg(not(miri))]
fn thread_cpu() -> f64 {
    #[repr(C)]
    struct Ts(i64, i64);
    extern "C" {
        fn clock_gettime(id: i32, ts: *mut Ts) -> i32;
    }
    let mut t = Ts(0, 0);
    unsafe { clock_gettime(3, &mut t) };
    t.0 as f64 + t.1 as f64 * 1e-9
}
#[cfg(miri)]
fn thread_cpu() -> f64 {
    0.0
}

/// CPU seconds of one decode of `b`, dropping included.
fn timed(b: &[u8], comp: bool) -> f64 {
    let t = thread_cpu();
    if comp {
        drop(std::hint::black_box(CompressedGraph::try_from(b)));
    } else {
        drop(std::hint::black_box(Graph::try_from(b)));
    }
    thread_cpu() - t
}
/// Above this for an image of `len` bytes, decoding is not in proportion to its length. A
/// correct decode takes some 10 to 40 ns a byte and microseconds for the constant part.
fn allowed(len: usize) -> f64 {
    0.15 + 2e-6 * len as f64
}
fn too_slow(b: &[u8], comp: bool, first: f64) -> Option<f64> {
    if first <= allowed(b.len()) {
        return None;
    }
    // a disturbance passes, a loop stays
    let best = (0..3).map(|_| timed(b, comp)).fold(first, f64::min);
    (best > allowed(b.len())).then_some(best)
}

/// An image of `k` records in one of several arrangements, `dent` making it inconsistent at
/// its very end.
fn shaped(shape: u64, dent: bool, und: bool, k: u64, salt: u64) -> (Vec<u8>, bool, &'static str) {
    let (comp, name, mut e): (bool, &'static str, Vec<(u64, u64)>) = match shape {
        0 => (false, "one per column", (0..k).map(|i| (i, i * 7 % k)).collect()),
        1 => (false, "few columns", (0..k).map(|i| (i % 3, i)).collect()),
        2 => (false, "one column", (0..k).map(|i| (5, i)).collect()),
        3 => (false, "one row", (0..k).map(|i| (i, 5)).collect()),
        4 => (false, "wide apart", (0..k).map(|i| (i << 43, (k - i) << 43)).collect()),
        5 => (false, "descending", (0..k).rev().map(|i| (i / 10, i)).collect()),
        6 => (false, "square", (0..k).map(|i| (i % (k / 60), i / (k / 60))).collect()),
        7 => (false, "scrambled", (0..k).map(|i| (i.wrapping_mul(salt | 1) >> 20, i)).collect()),
        8 => (true, "words along a column", (0..k).map(|i| (3, i)).collect()),
        9 => (true, "words along a row", (0..k).map(|i| (i, 3)).collect()),
        10 => (true, "words wide apart", (0..k).map(|i| (i << 40, (k - i) << 40)).collect()),
        11 => (true, "words on the diagonal", (0..k).map(|i| (i, i)).collect()),
        _ => (true, "words in a square", (0..k).map(|i| (i % (k / 60), i / (k / 60))).collect()),
    };
    if und {
        e = e.iter().filter(|x| x.0 != x.1).take(k as usize / 2).flat_map(|x| [*x, (x.1, x.0)]).collect();
        e.sort_unstable();
        e.dedup();
    }
    let n = (1u64 << 62) + 5;
    let mut b = if comp {
        // a word that equals its own transpose
        let w: Vec<_> = e.iter().map(|x| (*x, 0x8040_2010_0804_0201u64 & if x.0 == x.1 { salt | 1 } else { u64::MAX })).collect();
        codec::write_compressed(und, n, 3, &w)
    } else {
        codec::write_graph(und, n, &e)
    };
    if dent {
        let l = b.len();
        let rec = if comp { 24 } else { 16 };
        if salt % 2 == 0 {
            // the last record repeats the first
            let head = if comp { 42 } else { 26 };
            let c = b[head..head + rec].to_vec();
            b[l - rec..].copy_from_slice(&c);
        } else {
            set64(&mut b, l - 8, n);
        }
    }
    (b, comp, name)
}

/// CPU seconds a plain reading of the records into nested hash tables takes: what a decoder in
/// proportion to the length costs on this machine, now.
fn reference(b: &[u8], comp: bool) -> f64 {
    use std::collections::{HashMap, HashSet};
    let t = thread_cpu();
    let (head, rec, at) = if comp { (42, 24, 8) } else { (26, 16, 0) };
    let mut cols: HashMap<u64, HashSet<u64>> = HashMap::new();
    for r in b[head..].chunks_exact(rec) {
        cols.entry(be64(r, at)).or_default().insert(be64(r, at + 8));
    }
    drop(std::hint::black_box(cols));
    thread_cpu() - t
}

/// Decoding time against the reference's, over growing images of one shape.
fn scaling(cx: &mut Ctx) -> Res {
    let shape = if cx.idx < 30 { cx.idx % 13 } else { cx.rng.below(13) };
    let (dent, und) = (cx.rng.chance(1, 3), cx.rng.chance(1, 3) && shape != 11);
    let salt = cx.rng.u64();
    cx.feed(shape);
    cx.feed(salt);
    cx.feed((dent as u64) << 1 | und as u64);
    cx.nontrivial = true;
    let sizes: &[u64] = if cx.tier == crate::ctx::Tier::Thorough { &[3_000, 40_000, 500_000] } else { &[3_000, 30_000, 200_000] };
    for &k in sizes {
        let (b, comp, name) = shaped(shape, dent, und, k, salt);
        cx.say(|| format!("decoding time: {}{}{}, {} bytes", name, if und { ", undirected" } else { "" }, if dent { ", flawed at the end" } else { "" }, b.len()));
        let limit = 0.1 + 20.0 * reference(&b, comp);
        let mut l = timed(&b, comp);
        for _ in 0..2 {
            if l > limit {
                l = l.min(timed(&b, comp));
            }
        }
        cx.count("decoding times against a reference", 1);
        ensure!(l <= limit, "decoding {} bytes ({}) takes {:.3} s of CPU, more than {:.3} s: not in proportion to the length", b.len(), name, l, limit);
    }
    Ok(())
}

pub fn hostile(cx: &mut Ctx) -> Res {
    if cfg!(not(miri)) && ((4..30).contains(&cx.idx) || cx.rng.chance(1, 4000)) {
        return scaling(cx);
    }
    let b = if cx.idx < 4 { long(cx) } else { hostile_bytes(cx) };
    for x in b.chunks(8).take(2000) {
        cx.feed(x.iter().fold(0, |a, c| a << 8 | *c as u64));
    }
    cx.nontrivial = b.len() >= 26;
    cx.say(|| format!("{} bytes {}", b.len(), hexdump(&b)));
    // generous linear bounds: a hash set per column plus rehashing stays well below
    let bound = 64 * 1024 + 1024 * b.len();
    let blocks = 256 + b.len() as u64;
    let at = codec::Placed::new(&b);
    let meter = Meter::start();
    let t = thread_cpu();
    let g = Graph::try_from(&at[..]);
    let t = thread_cpu() - t;
    ensure!(meter.peak() <= bound, "decoding {} bytes as a standard graph took {} bytes of memory", b.len(), meter.peak());
    ensure!(meter.blocks() <= blocks, "decoding {} bytes as a standard graph made {} allocations", b.len(), meter.blocks());
    let meter = Meter::start();
    let ct = thread_cpu();
    let c = CompressedGraph::try_from(&at[..]);
    let ct = thread_cpu() - ct;
    ensure!(meter.peak() <= bound, "decoding {} bytes as a compressed graph took {} bytes of memory", b.len(), meter.peak());
    ensure!(meter.blocks() <= blocks, "decoding {} bytes as a compressed graph made {} allocations", b.len(), meter.blocks());
    for (comp, t) in [(false, t), (true, ct)] {
        if let Some(t) = too_slow(&b, comp, t) {
            bad!("decoding {} bytes as a {} graph takes {:.3} s of CPU: not in proportion to the length", b.len(), if comp { "compressed" } else { "standard" }, t);
        }
    }
    cx.count("decodes metered", 2);
    cx.count("decodes timed", 2);
    cx.count("bytes decoded", 2 * b.len() as u64);
    // the same input always gets the same verdict
    let again = (Graph::try_from(b.as_slice()).is_ok(), CompressedGraph::try_from(b.as_slice()).is_ok());
    ensure!(again == (g.is_ok(), c.is_ok()), "verdict changed from {:?} to {:?} on the same {} bytes", (g.is_ok(), c.is_ok()), again, b.len());
    if let Err(e) = &g {
        let _ = format!("{} {:?}", e, e);
    }
    if let Ok(g) = g {
        cx.count("accepted standard graphs exercised", 1);
        exercise(cx, &g)?;
    }
    if let Ok(c) = c {
        cx.count("accepted compressed graphs exercised", 1);
        let n = c.vertex_count();
        for v in [0, 1, 7, 8, n / 2, n.wrapping_sub(1), n, u64::MAX] {
            for w in [0, 1, n.wrapping_sub(1), u64::MAX] {
                let _ = c.does_edge_exist(v, w);
                let _ = c.get_compressed_matrix_entry(v, w);
            }
        }
        let _ = (c.is_undirected(), c.edge_count(), c.compression_level());
        if codec::block_dim(n) <= 60 || n > 1 << 20 {
            let _ = c.matrix_string();
        }
        let meter = Meter::start();
        let back = c.to_bytes();
        ensure!(back.is_ok(), "an accepted compressed graph cannot be saved again");
        ensure!(back.unwrap().len() <= b.len(), "an accepted compressed graph grew when saved again");
        ensure!(meter.peak() <= bound, "saving again took {} bytes of memory", meter.peak());
        let meter = Meter::start();
        let d = c.decompress();
        ensure!(meter.peak() <= bound + 64 * 1024 * (b.len() / 24), "decompressing an image of {} bytes took {} bytes of memory", b.len(), meter.peak());
        exercise(cx, &d)?;
    }
    Ok(())
}

fn exercise(cx: &mut Ctx, g: &Graph) -> Result<(), Fail> {
    let n = g.vertex_count();
    let mut k = 0u64;
    let mut some = vec![0, n.wrapping_sub(1), n, u64::MAX];
    for (a, b) in g {
        if k < 3 {
            some.push(a);
            some.push(b);
        }
        k += 1;
    }
    ensure!(k == g.edge_count(), "an accepted graph counts {} edges but lists {}", g.edge_count(), k);
    for v in &some {
        let _ = (g.get_vertex_in_degree(*v), g.get_vertex_out_degree(*v));
        let _ = (g.get_vertex_in_edges(*v).len(), g.get_vertex_out_edges(*v).len());
        for w in &some {
            let _ = g.does_edge_exist(*v, *w);
        }
    }
    if n <= 60 || n > 1 << 20 {
        let _ = g.matrix_string();
    }
    ensure!(g.to_bytes().is_ok(), "an accepted graph cannot be saved again");
    let _ = Model::new(g.is_undirected());
    cx.count("edges of accepted graphs listed", k);
    Ok(())
}
