//! C18: concurrent readers. Data races are the business of ThreadSanitizer and Miri, which run
//! this same workload; here every thread's answers are compared with a single thread's.
use crate::ctx::{viol, Ctx, Fail, Res};
use crate::codec;
use crate::gen;
use crate::hread;
use crate::model::{observe, Model};
use crate::props::c01;
use crate::rng::Rng;
use graphrox::builder::CompressedGraphBuilder;
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use graphrox_c as capi;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Barrier, Mutex};

// Whether a type may be shared / sent, asked without requiring it (so that this file builds
// whatever the answer).
struct Ask<T>(PhantomData<T>);
#[allow(dead_code)]
trait No {
    const SYNC: bool = false;
    const SEND: bool = false;
}
impl<T> No for Ask<T> {}
struct AskSend<T>(PhantomData<T>);
impl<T> No for AskSend<T> {}
impl<T: Sync> Ask<T> {
    const SYNC: bool = true;
}
impl<T: Send> AskSend<T> {
    const SEND: bool = true;
}

/// Pointers to the shared values: threads go through these.
#[derive(Clone, Copy)]
struct Shared {
    g: *const Graph,
    c: *const CompressedGraph,
    p: *const CsrSquareMatrix<f64>,
    hg: capi::GphrxGraph,
    hc: capi::GphrxCompressedGraph,
    hp: capi::GphrxCsrSquareMatrix,
}
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

fn fold(it: impl IntoIterator<Item = u64>) -> u64 {
    it.into_iter().fold(0x9e3779b97f4a7c15, |h: u64, x| (h.rotate_left(7) ^ x).wrapping_mul(0x100000001b3))
}
fn fold_text(s: &str) -> u64 {
    fold(s.bytes().map(|b| b as u64))
}
fn fold_graph(g: &Graph) -> u64 {
    let mut e: Vec<_> = g.into_iter().take(1_000_000).collect();
    e.sort_unstable();
    fold([g.is_undirected() as u64, g.vertex_count(), g.edge_count()].into_iter().chain(e.into_iter().flat_map(|x| [x.0, x.1])))
}
fn fold_image(b: &[u8], head: usize, rec: usize) -> u64 {
    if b.len() < head {
        return 2;
    }
    let mut r: Vec<&[u8]> = b[head..].chunks(rec).collect();
    r.sort_unstable();
    fold(b[..head].iter().map(|x| *x as u64).chain(r.concat().iter().map(|x| *x as u64)))
}
fn fold_compressed(c: &CompressedGraph) -> u64 {
    fold_image(&c.to_bytes().unwrap_or_default(), 42, 24)
}
fn fold_matrix(p: &CsrSquareMatrix<f64>) -> u64 {
    let mut e: Vec<_> = p.into_iter().map(|(v, c, r)| (c, r, v.to_bits())).collect();
    e.sort_unstable();
    fold([p.dimension(), p.entry_count()].into_iter().chain(e.into_iter().flat_map(|x| [x.0, x.1, x.2])))
}

#[derive(Clone, Debug)]
enum Task {
    Has(u64, u64),
    Ins(u64),
    Outs(u64),
    Iterate,
    Text,
    Save,
    Load,
    Dup,
    Pool(u64),
    Approx(u64, f64),
    Compress(u8),
    CHas(u64, u64),
    CText,
    CSave,
    CDup,
    Decompress,
    PText(usize),
    PIterate,
    HHas(u64, u64),
    HEdges,
    HIns(u64),
    HSave,
    HText,
    HApprox(u64, f64),
    HCompress(u8),
    HPool(u64),
    HDup,
    HDecompress,
    HCHas(u64, u64),
    HCSave,
    HPText,
    HPEntries,
    // values of the thread's own, made and changed from a seed
    OwnGraph(u64),
    OwnHandle(u64),
    OwnMatrix(u64),
    OwnBuilder(u64),
    BadLoad(u8),
}

unsafe fn ask(s: &Shared, t: &Task) -> u64 {
    let (g, c, p) = (&*s.g, &*s.c, &*s.p);
    match *t {
        Task::Has(a, b) => g.does_edge_exist(a, b) as u64,
        Task::Ins(v) => {
            let mut e = g.get_vertex_in_edges(v);
            e.sort_unstable();
            e.push(g.get_vertex_in_degree(v));
            fold(e)
        }
        Task::Outs(v) => {
            let mut e = g.get_vertex_out_edges(v);
            e.sort_unstable();
            e.push(g.get_vertex_out_degree(v));
            fold(e)
        }
        Task::Iterate => fold_graph(g),
        Task::Text => g.matrix_string().map(|s| fold_text(&s)).unwrap_or(1),
        Task::Save => fold_image(&g.to_bytes().unwrap_or(vec![0; 26]), 26, 16),
        Task::Load => g.to_bytes().ok().and_then(|b| Graph::try_from(&codec::Placed::new(&b)[..]).ok()).map(|g| fold_graph(&g)).unwrap_or(1),
        Task::Dup => fold_graph(&g.clone()),
        Task::Pool(b) => fold_matrix(&g.find_avg_pool_matrix(b)),
        Task::Approx(b, t) => fold_graph(&g.approximate(b, t)),
        Task::Compress(l) => fold_compressed(&g.compress(l)),
        Task::CHas(a, b) => (c.does_edge_exist(a, b) as u64) ^ fold([c.get_compressed_matrix_entry(a / 8, b / 8), c.edge_count(), c.vertex_count()]),
        Task::CText => c.matrix_string().map(|s| fold_text(&s)).unwrap_or(1),
        Task::CSave => fold_compressed(c),
        Task::CDup => fold_compressed(&c.clone()),
        Task::Decompress => fold_graph(&c.decompress()),
        Task::PText(d) => p.to_string_with_precision(d).map(|s| fold_text(&s)).unwrap_or(1),
        Task::PIterate => fold_matrix(p) ^ p.get_entry(0, 0).to_bits(),
        Task::HHas(a, b) => fold([capi::gphrx_does_edge_exist(s.hg, a, b) as u64, capi::gphrx_edge_count(s.hg), capi::gphrx_vertex_count(s.hg), capi::gphrx_is_undirected(s.hg) as u64]),
        Task::HEdges => {
            fold(hread::edges(s.hg).into_iter().flat_map(|x| [x.0, x.1]))
        }
        Task::HIns(v) => {
            let mut x = hread::ins(s.hg, v);
            x.extend(hread::outs(s.hg, v));
            x.push(capi::gphrx_get_vertex_in_degree(s.hg, v));
            x.push(capi::gphrx_get_vertex_out_degree(s.hg, v));
            fold(x)
        }
        Task::HSave => fold_image(&hread::bytes(s.hg), 26, 16),
        Task::HText => text(capi::gphrx_matrix_string(s.hg)),
        Task::HApprox(b, t) => free_g(capi::gphrx_approximate(s.hg, b, t)),
        Task::HCompress(l) => {
            let h = capi::gphrx_compress(s.hg, l);
            let r = fold_image(&hread::cbytes(h), 42, 24);
            capi::free_gphrx_compressed_graph(h);
            r
        }
        Task::HPool(b) => {
            let h = capi::gphrx_find_avg_pool_matrix(s.hg, b);
            let r = fold_cells(h);
            capi::free_gphrx_matrix(h);
            r
        }
        Task::HDup => free_g(capi::gphrx_duplicate(s.hg)),
        Task::HDecompress => free_g(capi::gphrx_decompress(s.hc)),
        Task::HCHas(a, b) => fold([
            capi::gphrx_compressed_graph_does_edge_exist(s.hc, a, b) as u64,
            capi::gphrx_get_compressed_matrix_entry(s.hc, a / 8, b / 8),
            capi::gphrx_compressed_graph_edge_count(s.hc),
            capi::gphrx_compressed_graph_vertex_count(s.hc),
            capi::gphrx_compressed_graph_compression_level(s.hc) as u64,
            capi::gphrx_compressed_graph_is_undirected(s.hc) as u64,
        ]),
        Task::HCSave => {
            let h = fold_image(&hread::cbytes(s.hc), 42, 24);
            let d = capi::gphrx_compressed_graph_duplicate(s.hc);
            capi::free_gphrx_compressed_graph(d);
            h ^ text(capi::gphrx_compressed_graph_matrix_string(s.hc))
        }
        Task::HPText => text(capi::gphrx_matrix_to_string_with_precision(s.hp, 3)),
        Task::HPEntries => {
            let d = capi::gphrx_matrix_duplicate(s.hp);
            let n = capi::gphrx_matrix_dimension(d) ^ capi::gphrx_matrix_entry_count(s.hp) ^ capi::gphrx_matrix_get_entry(d, 0, 0).to_bits();
            capi::free_gphrx_matrix(d);
            n ^ fold_cells(s.hp)
        }
        Task::OwnGraph(seed) => {
            let mut r = Rng::new(seed);
            let mut g = c01::new(seed & 1 == 1);
            let mut h = 0u64;
            for k in 0..own_len() {
                let (a, b) = (r.below(12), r.below(12));
                match r.below(6) {
                    0 => g.delete_edge(a, b),
                    1 => g.add_vertex(a, Some(&[b, a + 1])),
                    _ => g.add_edge(a, b),
                }
                if k % 8 == 7 {
                    h = fold([h, g.edge_count(), g.vertex_count(), g.does_edge_exist(b, a) as u64]);
                }
            }
            h ^ fold_graph(&g) ^ fold_graph(&g.approximate(2, 0.3)) ^ fold_graph(&g.compress(1).decompress())
        }
        Task::OwnHandle(seed) => {
            let mut r = Rng::new(seed);
            let h = if seed & 1 == 1 { capi::gphrx_new_undirected() } else { capi::gphrx_new_directed() };
            for _ in 0..own_len() {
                let (a, b) = (r.below(12), r.below(12));
                match r.below(6) {
                    0 => capi::gphrx_delete_edge(h, a, b),
                    1 => {
                        let l = [b, a + 1];
                        capi::gphrx_add_vertex(h, a, l.as_ptr(), 2)
                    }
                    _ => capi::gphrx_add_edge(h, a, b),
                }
            }
            let e = fold(hread::edges(h).into_iter().flat_map(|x| [x.0, x.1]));
            e ^ free_g(h)
        }
        Task::OwnMatrix(seed) => {
            let mut r = Rng::new(seed);
            let mut a = CsrSquareMatrix::<i16>::new();
            let mut b = CsrSquareMatrix::<f32>::new();
            let mut j = CsrAdjacencyMatrix::new();
            for _ in 0..own_len() {
                let (x, y, v) = (r.below(9), r.below(9), r.below(9) as i16 - 4);
                a.set_entry(v, x, y);
                b.set_entry(v as f32 / 8.0, y, x);
                j.set_entry((v > 0) as u8, x, y);
                if v > 2 {
                    a.increment_entry(y, x);
                    b.increment_entry(x, x);
                }
            }
            let mut e: Vec<_> = a.into_iter().map(|(v, c, r)| (c, r, v as u64)).collect();
            e.sort_unstable();
            let t = |x: Result<String, _>| x.map(|s| fold_text(&s)).unwrap_or(1);
            let (tb, tj) = (t(b.to_string_with_precision(3)), t(j.try_to_string()));
            let und = Graph::undirected_from(j.clone()).map(|g| fold_graph(&g)).unwrap_or(4);
            let dir = fold_graph(&Graph::directed_from(j));
            fold(e.into_iter().flat_map(|x| [x.0, x.1, x.2]).chain([tb, tj, und, dir, a.entry_count(), b.dimension()]))
        }
        Task::OwnBuilder(seed) => {
            let mut r = Rng::new(seed);
            let mut b = CompressedGraphBuilder::new(false, 40, 1 + (seed % 64) as u8);
            for k in 0..r.range(1, 5) {
                let (w, row) = (r.u64() | 1, r.below(5));
                b.add_compressed_matrix_entry(w, k, row, r.bool().then_some(w.count_ones() as u64));
            }
            let c = b.finish();
            fold_compressed(&c) ^ fold_graph(&c.decompress())
        }
        Task::BadLoad(kind) => {
            let mut b = codec::write_graph(false, 5, &[(1, 2), (3, 4)]);
            match kind {
                0 => b[0] ^= 1,
                1 => b.truncate(30),
                2 => b[7] = 9,
                3 => b.truncate(5),
                _ => b[33] = 200,
            }
            let (mut e1, mut e2) = (77u8, 78u8);
            let h = capi::gphrx_from_bytes(b.as_ptr(), b.len(), &mut e1);
            let i = capi::gphrx_compressed_graph_from_bytes(b.as_ptr(), b.len(), &mut e2);
            let t = fold_text(&format!("{:?}", Graph::try_from(&codec::Placed::new(&b)[..]).err()));
            fold([e1 as u64, e2 as u64, h.graph_ptr.is_null() as u64, i.graph_ptr.is_null() as u64, t])
        }
    }
}
fn own_len() -> u64 {
    if cfg!(miri) {
        8
    } else {
        40
    }
}
unsafe fn free_g(h: capi::GphrxGraph) -> u64 {
    let r = fold_image(&hread::bytes(h), 26, 16) ^ capi::gphrx_edge_count(h);
    capi::free_gphrx_graph(h);
    r
}
unsafe fn fold_cells(h: capi::GphrxCsrSquareMatrix) -> u64 {
    capi::gphrx_matrix_dimension(h) ^ fold(hread::cells(h).into_iter().flat_map(|x| [x.0, x.1, x.2]))
}
unsafe fn text(p: *mut std::ffi::c_char) -> u64 {
    if p.is_null() {
        return 1;
    }
    let h = fold(std::ffi::CStr::from_ptr(p).to_bytes().iter().map(|b| *b as u64));
    capi::free_gphrx_string_buffer(p);
    h
}

fn tasks(r: &mut Rng, m: &Model, tiny: bool) -> Vec<Task> {
    let vs = m.vertices();
    let v = |r: &mut Rng| if vs.is_empty() || r.chance(1, 5) { r.below(12) } else { *r.pick(&vs) };
    let small = m.n < 80;
    let mut t = vec![];
    for _ in 0..3 {
        t.push(Task::Has(v(r), v(r)));
        t.push(Task::HHas(v(r), v(r)));
        t.push(Task::CHas(v(r), v(r)));
        t.push(Task::HCHas(v(r), v(r)));
        t.push(Task::Ins(v(r)));
        t.push(Task::Outs(v(r)));
        t.push(Task::HIns(v(r)));
    }
    for _ in 0..2 {
        let b = *r.pick(&[1u64, 2, 3, 7, 8, m.n / 2 + 1]);
        let x = *r.pick(&[0.0, 0.1, 0.5, 1.0]);
        t.push(Task::Pool(b));
        t.push(Task::HPool(b));
        t.push(Task::Approx(b, x));
        t.push(Task::HApprox(b, x));
        let l = *r.pick(&[0u8, 1, 2, 5, 40]);
        t.push(Task::Compress(l));
        t.push(Task::HCompress(l));
    }
    t.extend([Task::Iterate, Task::Save, Task::Load, Task::Dup, Task::CSave, Task::CDup, Task::Decompress, Task::PIterate, Task::HEdges, Task::HSave, Task::HDup, Task::HDecompress, Task::HPEntries]);
    if small {
        t.extend([Task::Text, Task::CText, Task::PText(2), Task::PText(5), Task::HText, Task::HCSave, Task::HPText]);
    }
    for _ in 0..2 {
        let x = r.u64() >> 1;
        t.extend([Task::OwnGraph(x), Task::OwnHandle(x ^ 1), Task::OwnMatrix(x ^ 2), Task::OwnBuilder(x ^ 3)]);
    }
    for k in 0..5 {
        t.push(Task::BadLoad(k));
    }
    r.shuffle(&mut t);
    if tiny {
        t.truncate(10);
    }
    t
}

/// One graph, a compressed graph and a matrix derived from it, and the same behind C handles.
struct Set {
    g: Box<Graph>,
    c: Box<CompressedGraph>,
    p: Box<CsrSquareMatrix<f64>>,
    hg: capi::GphrxGraph,
    hc: capi::GphrxCompressedGraph,
    hp: capi::GphrxCsrSquareMatrix,
    m: Model,
}
impl Set {
    fn new(cx: &mut Ctx, tiny: bool) -> Result<Set, Fail> {
        let small = |cx: &mut Ctx| {
            let (k, n) = (cx.rng.range(1, 6), cx.rng.range(1, 9));
            let edges = (0..k).map(|_| (cx.rng.below(n), cx.rng.below(n))).collect();
            let s = gen::Spec { und: cx.rng.bool(), n, edges, shape: "small" };
            gen::graph_of(cx, &s)
        };
        let (g, m) = if tiny {
            small(cx)?
        } else {
            let (g, m) = gen::graph(cx)?;
            if m.e.len() > 600 {
                small(cx)?
            } else {
                (g, m)
            }
        };
        let lv = *cx.rng.pick(&[0u8, 1, 2, 4]);
        let (c, p) = cx.setup(|_| (g.compress(lv), g.find_avg_pool_matrix(2)));
        let handles = cx.setup(|_| unsafe {
            let hg = hread::load(&g.to_bytes().ok()?)?;
            let hc = capi::gphrx_compress(hg, lv);
            let hp = capi::gphrx_find_avg_pool_matrix(hg, 2);
            Some((hg, hc, hp))
        });
        let Some((hg, hc, hp)) = handles else {
            return Err(Fail::Skip("no C graph with that content"));
        };
        Ok(Set { g: Box::new(g), c: Box::new(c), p: Box::new(p), hg, hc, hp, m })
    }
    /// From images alone, for a thread that starts with nothing.
    fn of_images(image: &[u8], packed: &[u8]) -> Option<Set> {
        let g = Box::new(Graph::try_from(image).ok()?);
        let c = Box::new(CompressedGraph::try_from(packed).ok()?);
        let p = Box::new(g.find_avg_pool_matrix(2));
        unsafe {
            let (hg, hc) = (hread::load(image)?, hread::cload(packed)?);
            let hp = capi::gphrx_find_avg_pool_matrix(hg, 2);
            Some(Set { g, c, p, hg, hc, hp, m: Model::new(false) })
        }
    }
    fn shared(&self) -> Shared {
        Shared { g: &*self.g, c: &*self.c, p: &*self.p, hg: self.hg, hc: self.hc, hp: self.hp }
    }
    fn unchanged(&self) -> Res {
        let o = viol(observe(&self.g))?;
        if let Some(d) = o.diff(&self.m) {
            bad!("the shared graph changed under concurrent readers: {}", d);
        }
        Ok(())
    }
}
impl Drop for Set {
    fn drop(&mut self) {
        unsafe {
            capi::free_gphrx_graph(self.hg);
            capi::free_gphrx_compressed_graph(self.hc);
            capi::free_gphrx_matrix(self.hp);
        }
    }
}

/// A few threads repeat one question each, over and over at the same time: mostly the same
/// operation with different arguments or on different values, so that anything they share
/// behind the scenes mixes their answers up.
fn duel(cx: &mut Ctx) -> Res {
    let tiny = cfg!(miri);
    let tsan = cx.aux.contains("tsan");
    let sets = [Set::new(cx, tiny)?, Set::new(cx, tiny)?];
    let mut all: Vec<(usize, Task)> = vec![];
    for (k, s) in sets.iter().enumerate() {
        all.extend(tasks(&mut cx.rng, &s.m, false).into_iter().map(|t| (k, t)));
    }
    let n = if tiny { cx.rng.range(2, 3) as usize } else { cx.rng.range(2, 5) as usize };
    let heats = if tiny { 3 } else { 6 };
    let start = std::time::Instant::now();
    for _ in 0..heats {
        if tiny && start.elapsed().as_secs() > 8 {
            break;
        }
        let mut who: Vec<(usize, Task)> = vec![];
        let first = cx.rng.pick(&all).clone();
        let kind = std::mem::discriminant(&first.1);
        let alike: Vec<_> = all.iter().filter(|t| std::mem::discriminant(&t.1) == kind).cloned().collect();
        who.push(first);
        while who.len() < n {
            let t = if cx.rng.chance(3, 4) { cx.rng.pick(&alike).clone() } else { cx.rng.pick(&all).clone() };
            who.push(t);
        }
        let first_alone = cx.rng.bool();
        let single = |cx: &mut Ctx| cx.setup(|_| who.iter().map(|(k, t)| unsafe { ask(&sets[*k].shared(), t) }).collect::<Vec<u64>>());
        let before = if first_alone { single(cx) } else { vec![] };
        let barrier = Barrier::new(n);
        let panicked = AtomicBool::new(false);
        let asked = AtomicU64::new(0);
        let limit = std::time::Duration::from_millis(if tsan { 60 } else { 25 });
        // per thread: the different answers it got
        let got: Mutex<Vec<(usize, u64)>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for (k, (set, task)) in who.iter().enumerate() {
                let s = sets[*set].shared();
                let (barrier, panicked, asked, got) = (&barrier, &panicked, &asked, &got);
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn_scoped(sc, move || {
                        let s = s;
                        barrier.wait();
                        let run = std::panic::AssertUnwindSafe(|| {
                            let mut seen: Vec<u64> = vec![];
                            let mut count = 0u64;
                            let t0 = std::time::Instant::now();
                            loop {
                                let x = unsafe { ask(&s, task) };
                                if !seen.contains(&x) && seen.len() < 8 {
                                    seen.push(x);
                                }
                                count += 1;
                                if tiny && (count >= 6 || start.elapsed().as_secs() > 6) || !tiny && count % 8 == 0 && t0.elapsed() > limit {
                                    break;
                                }
                            }
                            asked.fetch_add(count, SeqCst);
                            got.lock().unwrap().extend(seen.into_iter().map(|x| (k, x)));
                        });
                        if std::panic::catch_unwind(run).is_err() {
                            panicked.store(true, SeqCst);
                        }
                    })
                    .expect("thread");
            }
        });
        cx.say(|| format!("duel {:?}", who));
        ensure!(!panicked.load(SeqCst), "a thread panicked ({:?} at once)", who);
        let after = single(cx);
        for (k, x) in got.into_inner().unwrap() {
            ensure!(x == after[k], "{:?} answers differently while other threads ask {:?}", who[k].1, who.iter().map(|w| &w.1).collect::<Vec<_>>());
        }
        for (k, x) in before.iter().enumerate() {
            ensure!(*x == after[k], "{:?} answers differently after concurrent use", who[k].1);
        }
        cx.count("duels", 1);
        cx.count("threads", n as u64);
        cx.count("concurrent questions answered", asked.load(SeqCst));
    }
    for s in &sets {
        s.unchanged()?;
    }
    cx.nontrivial = true;
    Ok(())
}

/// The library's first calls in a process are made by several threads at once: whatever it
/// prepares once per process is prepared concurrently. Nothing of the library may have run
/// before in this process, so everything is made by the threads themselves from images.
fn cold(cx: &mut Ctx) -> Res {
    let tiny = cfg!(miri);
    let n = if tiny { cx.rng.range(2, 3) as usize } else { cx.rng.range(2, 8) as usize };
    let mut specs = vec![];
    for _ in 0..2 {
        let mut s = gen::edges(&mut cx.rng, cx.dict);
        if tiny || s.edges.len() > 400 {
            let (k, m) = (cx.rng.range(1, 6), cx.rng.range(2, 10));
            s = gen::Spec { und: cx.rng.bool(), n: m, edges: (0..k).map(|_| (cx.rng.below(m), cx.rng.below(m))).collect(), shape: "small" };
        }
        let m = s.model();
        let edges: Vec<_> = m.e.iter().copied().collect();
        let image = codec::write_graph(m.und, m.n, &edges);
        let words: Vec<_> = m.words().into_iter().collect();
        let packed = codec::write_compressed(m.und, m.n, 1, &words);
        specs.push((m, image, packed));
    }
    // who does what: the same first question for everybody, or any
    let mut lists: Vec<(usize, bool, Vec<Task>)> = vec![];
    let mut all: Vec<Vec<Task>> = specs.iter().map(|s| tasks(&mut cx.rng, &s.0, false)).collect();
    let alike = cx.rng.chance(2, 3);
    let lead = std::mem::discriminant(cx.rng.pick(&all[0]));
    for _ in 0..n {
        let k = cx.rng.below(2) as usize;
        cx.rng.shuffle(&mut all[k]);
        let mut l = all[k].clone();
        if alike {
            l.sort_by_key(|t| std::mem::discriminant(t) != lead);
        }
        l.truncate(if tiny { 3 } else { 40 });
        lists.push((k, cx.rng.bool(), l));
    }
    let barrier = Barrier::new(n);
    type Got = Result<(Vec<u64>, Vec<u64>), Option<&'static str>>;
    let got: Mutex<Vec<(usize, Got)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for (i, (k, wait, list)) in lists.iter().enumerate() {
            let (barrier, got, spec) = (&barrier, &got, &specs[*k]);
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn_scoped(sc, move || {
                    barrier.wait();
                    let run = std::panic::AssertUnwindSafe(|| -> Got {
                        let set = Set::of_images(&spec.1, &spec.2);
                        if *wait {
                            // a little delay, so that the phases of the threads differ
                            std::thread::yield_now();
                        }
                        let set = set.ok_or(Some("an image was refused"))?;
                        let s = set.shared();
                        let first = list.iter().map(|t| unsafe { ask(&s, t) }).collect();
                        let second = list.iter().map(|t| unsafe { ask(&s, t) }).collect();
                        Ok((first, second))
                    });
                    let r = std::panic::catch_unwind(run).unwrap_or(Err(None));
                    got.lock().unwrap().push((i, r));
                })
                .expect("thread");
        }
    });
    cx.say(|| format!("first calls of a process by {} threads: {:?}", n, lists));
    // alone, afterwards
    let mut sets = vec![];
    for (m, image, packed) in &specs {
        let set = cx.setup(|_| Set::of_images(image, packed)).ok_or(Fail::Skip("an image of the format is refused"))?;
        let same = cx.setup(|_| observe(&set.g)).map(|o| o.diff(m).is_none()).unwrap_or(false);
        let edges: Vec<(u64, u64)> = m.e.iter().copied().take(200).collect();
        let packed_same = cx.setup(|_| set.c.vertex_count() == m.n && edges.iter().all(|e| set.c.does_edge_exist(e.0, e.1)));
        sets.push((set, same && packed_same));
    }
    for (i, r) in got.into_inner().unwrap() {
        let (k, _, list) = &lists[i];
        match r {
            Err(None) => bad!("a thread panicked among the first calls of the process ({:?})", list),
            Err(Some(w)) => bad!("{} among the first calls of the process, but not later", w),
            Ok((first, second)) => {
                ensure!(sets[*k].1, "values loaded after the concurrent first calls of the process are not what their images say");
                let s = sets[*k].0.shared();
                for (j, t) in list.iter().enumerate() {
                    let want = cx.setup(|_| unsafe { ask(&s, t) });
                    ensure!(first[j] == want, "{:?} answers differently among the first calls of the process, made by {} threads at once", t, n);
                    ensure!(second[j] == want, "{:?} answers differently in one of {} threads at once", t, n);
                }
                cx.count("concurrent questions answered", 2 * list.len() as u64);
            }
        }
    }
    cx.count("threads", n as u64);
    cx.nontrivial = true;
    Ok(())
}

/// Runs this case's `cold` in a process of its own.
fn fresh_process(cx: &mut Ctx) -> Res {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.into());
    let out = std::process::Command::new("/proc/self/exe")
        .args(["replay", "C18", "--case", &cx.idx.to_string(), "--seed", &opt("--seed", "1"), "--tier", &opt("--tier", "quick"), "--dict", &opt("--dict", "/nonexistent")])
        .args(["--cpu-limit", &opt("--cpu-limit", "45"), "--aux", &format!("{};fresh-process", cx.aux)])
        .output();
    let Ok(out) = out else {
        return Err(Fail::Skip("no process could be started"));
    };
    let text = String::from_utf8_lossy(&out.stdout).into_owned() + &String::from_utf8_lossy(&out.stderr);
    let line = |k: &str| text.lines().find_map(|l| l.find(k).map(|i| l[i..].to_string()));
    cx.say(|| line("case ").unwrap_or_default());
    if let Some(m) = line("WARNING: ThreadSanitizer").or(line("GXALLOC-VIOLATION")) {
        let at: Vec<&str> = text.lines().filter(|l| l.contains("graphrox")).take(3).map(|l| l.trim()).collect();
        bad!("{} among the first calls of a process: {}", m, at.join(" / "));
    }
    use std::os::unix::process::ExitStatusExt;
    match out.status.code() {
        Some(0) => {}
        Some(1) => bad!("{}", line("RESULT violation: ").unwrap_or_default().replace("RESULT violation: ", "")),
        Some(77) => bad!("threads making the first calls of a process do not come to an end"),
        Some(c) => panic!("the fresh process ended with {}: {}", c, text.chars().take(600).collect::<String>()),
        None if out.status.signal() == Some(9) => return Err(Fail::Skip("the process was killed")),
        None => bad!("a process whose first calls are made by several threads ended with {}: {}", out.status, text.chars().take(600).collect::<String>()),
    }
    if text.contains("RESULT skipped") {
        return Err(Fail::Skip("set-up in a fresh process"));
    }
    cx.count("processes begun by several threads at once", 1);
    cx.nontrivial = true;
    let h = text.bytes().fold(7u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    cx.feed(h);
    Ok(())
}

pub fn case(cx: &mut Ctx) -> Res {
    // asked once per process, cheap
    for (what, ok) in [
        ("Graph cannot be shared between threads (not Sync)", Ask::<Graph>::SYNC),
        ("CompressedGraph cannot be shared between threads (not Sync)", Ask::<CompressedGraph>::SYNC),
        ("CsrSquareMatrix<f64> cannot be shared between threads (not Sync)", Ask::<CsrSquareMatrix<f64>>::SYNC),
        ("Graph cannot be moved to another thread (not Send)", AskSend::<Graph>::SEND),
        ("CompressedGraph cannot be moved to another thread (not Send)", AskSend::<CompressedGraph>::SEND),
    ] {
        ensure!(ok, "{}", what);
    }
    static FIRST: AtomicBool = AtomicBool::new(true);
    let first = FIRST.swap(false, SeqCst);
    if cx.aux.contains("fresh-process") || cfg!(miri) && first {
        return cold(cx);
    }
    if !cfg!(miri) && cx.rng.chance(1, 5) {
        return fresh_process(cx);
    }
    if cx.rng.chance(2, 3) {
        return duel(cx);
    }
    let tiny = cfg!(miri);
    let tsan = cx.aux.contains("tsan");
    let set = Set::new(cx, tiny)?;
    let (s, m) = (set.shared(), &set.m);
    let ts = tasks(&mut cx.rng, m, tiny);
    let seq_first = cx.rng.bool();
    let single = |cx: &mut Ctx| cx.setup(|_| ts.iter().map(|t| unsafe { ask(&s, t) }).collect::<Vec<u64>>());
    // the single-thread answers are taken before or after the concurrent phase, so that state
    // initialised lazily on first use is initialised concurrently half of the time
    let mut want = if seq_first { single(cx) } else { vec![] };
    let readers = if tiny { 2 } else { cx.rng.range(2, 6) as usize };
    let writers = if tiny { 1 } else { cx.rng.range(0, 3) as usize };
    let rounds = if tiny { 1 } else if tsan { 2 } else { 3 };
    let barrier = Barrier::new(readers + writers);
    let got: Mutex<Vec<(usize, usize, u64)>> = Mutex::new(vec![]);
    let problem: Mutex<Option<String>> = Mutex::new(None);
    let asked = AtomicU64::new(0);
    let mutations = AtomicU64::new(0);
    let panicked = AtomicBool::new(false);
    let seeds: Vec<u64> = (0..readers + writers).map(|_| cx.rng.u64()).collect();
    std::thread::scope(|sc| {
        for k in 0..readers + writers {
            let (ts, barrier, got, problem, asked, mutations, panicked) = (&ts, &barrier, &got, &problem, &asked, &mutations, &panicked);
            let (seed, und) = (seeds[k], seeds[k] & 1 == 1);
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn_scoped(sc, move || {
                    let s = s;
                    let mut r = Rng::new(seed);
                    barrier.wait();
                    let run = std::panic::AssertUnwindSafe(|| {
                        if k < readers {
                            let mut mine = vec![];
                            for _ in 0..rounds {
                                let mut order: Vec<usize> = (0..ts.len()).collect();
                                if r.chance(2, 3) {
                                    r.shuffle(&mut order);
                                }
                                for i in order {
                                    mine.push((k, i, unsafe { ask(&s, &ts[i]) }));
                                    if r.chance(1, 8) {
                                        std::thread::yield_now();
                                    }
                                }
                            }
                            asked.fetch_add(mine.len() as u64, SeqCst);
                            got.lock().unwrap().extend(mine);
                        } else {
                            // mutate graphs of this thread's own, and check them
                            let mut mine = c01::new(und);
                            let mut model = Model::new(und);
                            let h = if und { capi::gphrx_new_undirected() } else { capi::gphrx_new_directed() };
                            let n = if tiny { 10 } else { 120 };
                            for _ in 0..n {
                                let (a, b) = (r.below(20), r.below(20));
                                unsafe {
                                    if r.chance(1, 4) {
                                        mine.delete_edge(a, b);
                                        model.delete_edge(a, b);
                                        capi::gphrx_delete_edge(h, a, b);
                                    } else {
                                        mine.add_edge(a, b);
                                        model.add_edge(a, b);
                                        capi::gphrx_add_edge(h, a, b);
                                    }
                                }
                                if r.chance(1, 10) {
                                    std::thread::yield_now();
                                }
                            }
                            mutations.fetch_add(2 * n, SeqCst);
                            let hm = unsafe { Model { und: capi::gphrx_is_undirected(h) != 0, n: capi::gphrx_vertex_count(h), e: hread::edges(h).into_iter().collect() } };
                            let hcount = unsafe { capi::gphrx_edge_count(h) };
                            for (o, count) in [(observe(&mine), mine.edge_count()), (Ok(hm), hcount)] {
                                let bad = match o {
                                    Err(e) => Some(e),
                                    Ok(o) => o.diff(&model),
                                };
                                let bad = bad.or_else(|| if count != model.e.len() as u64 { Some("edge_count is wrong".into()) } else { None });
                                if let Some(b) = bad {
                                    *problem.lock().unwrap() = Some(format!("a thread mutating its own graph while others read theirs: {}", b));
                                }
                            }
                            unsafe { capi::free_gphrx_graph(h) };
                        }
                    });
                    if std::panic::catch_unwind(run).is_err() {
                        panicked.store(true, SeqCst);
                    }
                })
                .expect("thread");
        }
    });
    ensure!(!panicked.load(SeqCst), "a thread panicked");
    if let Some(b) = problem.into_inner().unwrap() {
        return Err(Fail::Violation(b));
    }
    let again = single(cx);
    if !seq_first {
        want = again.clone();
    }
    for (k, i, x) in got.into_inner().unwrap() {
        ensure!(x == want[i], "thread {} of {} got a different answer to {:?} than a single thread", k, readers, ts[i]);
    }
    for (i, x) in again.iter().enumerate() {
        ensure!(*x == want[i], "{:?} answers differently after concurrent use", ts[i]);
    }
    set.unchanged()?;
    cx.count("threads", (readers + writers) as u64);
    cx.count("concurrent questions answered", asked.load(SeqCst));
    cx.count("private mutations alongside", mutations.load(SeqCst));
    cx.nontrivial = true;
    Ok(())
}
