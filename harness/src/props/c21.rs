//! C21: memory that cannot be had while saving or rendering is reported, and nothing else happens.
use crate::codec;
use crate::ctx::{viol, Ctx, Fail, Res};
use crate::gen;
use crate::model::{same, Model};
use crate::props::c08::csame;
use graphrox::error::GraphRoxError;
use graphrox::matrix::{CsrAdjacencyMatrix, CsrSquareMatrix, MatrixRepresentation};
use graphrox::{Graph, GraphRepresentation};
use graphrox_c as capi;
use std::collections::BTreeMap;
use std::fmt::Write;

#[cfg(feature = "monalloc")]
use gxalloc::{live_blocks, refuse_from, refused};
#[cfg(not(feature = "monalloc"))]
fn live_blocks() -> usize { 0 }
#[cfg(not(feature = "monalloc"))]
fn refuse_from(_: usize) {}
#[cfg(not(feature = "monalloc"))]
fn refused() -> u64 { 0 }

/// No request of this thread for `size` bytes or more is granted while this lives.
struct Scarce;
impl Scarce {
    fn from(size: usize) -> Scarce {
        refuse_from(size);
        Scarce
    }
}
impl Drop for Scarce {
    fn drop(&mut self) {
        refuse_from(usize::MAX);
    }
}

enum Out {
    Full(Vec<u8>),
    Refused,
    Odd(String),
}

fn rust<T: Into<Vec<u8>>>(r: Result<T, GraphRoxError>) -> Out {
    match r {
        Ok(b) => Out::Full(b.into()),
        Err(GraphRoxError::CapacityOverflow(_)) => Out::Refused,
        Err(e) => Out::Odd(format!("the error '{}'", e)),
    }
}

/// A text that the C interface returned.
unsafe fn ctext(p: *mut std::ffi::c_char, copy: bool) -> Out {
    if p.is_null() {
        return Out::Refused;
    }
    let v = if copy { std::ffi::CStr::from_ptr(p).to_bytes().to_vec() } else { vec![] };
    capi::free_gphrx_string_buffer(p);
    Out::Full(v)
}

/// An image that the C interface returned.
unsafe fn cimage(f: impl Fn(*mut usize) -> *mut u8, copy: bool) -> Out {
    let mut l = 77usize;
    let p = f(&mut l);
    if p.is_null() {
        return if l == 0 { Out::Refused } else { Out::Odd(format!("null with a length of {}", l)) };
    }
    let v = if copy { std::slice::from_raw_parts(p, l).to_vec() } else { vec![] };
    capi::free_gphrx_bytes_buffer(p, l);
    Out::Full(v)
}

/// One way of saving or rendering: the flag tells whether the result is wanted or just whether
/// there is one (a copy needs memory too).
struct View<'a> {
    name: String,
    /// what the result takes
    size: usize,
    call: Box<dyn Fn(bool) -> Out + 'a>,
}

fn view<'a>(name: impl Into<String>, extra: usize, call: impl Fn(bool) -> Out + 'a) -> Option<(View<'a>, Vec<u8>)> {
    match call(true) {
        Out::Full(want) => Some((View { name: name.into(), size: want.len() + extra, call: Box::new(call) }, want)),
        _ => None,
    }
}

/// Refusals and successes in some order; `intact` says whether the object is what it was.
fn attempts(cx: &mut Ctx, views: Vec<Option<(View, Vec<u8>)>>, intact: &dyn Fn() -> Result<(), String>) -> Res {
    let mut vs = vec![];
    for v in views {
        let Some(v) = v else { return Err(Fail::Skip("no result with all the memory there is")) };
        // the messages of errors take memory, too
        if v.1.len() >= 2048 {
            vs.push(v);
        }
    }
    if vs.is_empty() {
        return Err(Fail::Skip("result too small"));
    }
    for _ in 0..cx.rng.range(2, 6) {
        let (v, want) = &vs[cx.rng.us(vs.len())];
        for _ in 0..cx.rng.range(1, 3) {
            let (blocks, before) = (live_blocks(), refused());
            let o = {
                let _g = Scarce::from(v.size);
                (v.call)(false)
            };
            let asked = refused() - before;
            match o {
                Out::Refused => {}
                Out::Full(_) => bad!("{} gave a result of {} bytes although no block of that size was to be had", v.name, v.size),
                Out::Odd(e) => bad!("{} gave {} when {} bytes were not to be had, not a capacity error", v.name, e, v.size),
            }
            ensure!(asked > 0, "{} reported a lack of memory although it was refused none", v.name);
            ensure!(live_blocks() == blocks, "{} left {} blocks of memory behind when it was refused more", v.name, live_blocks() as i64 - blocks as i64);
            cx.count("requests for memory refused", asked);
            cx.count("refusals reported", 1);
        }
        if cx.rng.bool() {
            viol(intact().map_err(|e| format!("after {} was refused memory: {}", v.name, e)))?;
            cx.count("objects looked at after a refusal", 1);
        }
        let (v, want) = if cx.rng.bool() { (v, want) } else { let x = &vs[cx.rng.us(vs.len())]; (&x.0, &x.1) };
        match (v.call)(true) {
            Out::Full(got) => ensure!(got == *want, "{} gives another result after memory was refused: {} bytes, before {}", v.name, got.len(), want.len()),
            Out::Refused => bad!("{} still fails now that there is memory", v.name),
            Out::Odd(e) => bad!("{} gives {} now that there is memory", v.name, e),
        }
        cx.count("results complete after a refusal", 1);
    }
    viol(intact())?;
    cx.nontrivial = true;
    Ok(())
}

/// A graph with exactly 2^k edges (so that no collection of them takes more than the image).
fn powers(cx: &mut Ctx) -> gen::Spec {
    let und = cx.rng.bool();
    let k = if cx.big() { 16 } else { cx.rng.range(8, 11) };
    let want = 1usize << if und { k - 1 } else { k };
    let far = cx.rng.chance(1, 3);
    let top = if far { u64::MAX - 1 } else { 8 << (k / 2 + 1) };
    let mut seen = std::collections::BTreeSet::new();
    let mut pool: Vec<u64> = (0..(1u64 << (k / 2 + 2))).map(|_| if far { cx.rng.below(top) } else { cx.rng.below(top) }).collect();
    pool.sort_unstable();
    pool.dedup();
    while seen.len() < want {
        let (a, b) = (*cx.rng.pick(&pool), *cx.rng.pick(&pool));
        if und && a == b {
            continue;
        }
        seen.insert(if und { (a.min(b), a.max(b)) } else { (a, b) });
    }
    let edges: Vec<(u64, u64)> = seen.into_iter().collect();
    let n = edges.iter().map(|e| e.0.max(e.1)).max().unwrap() + 1;
    gen::Spec { und, n, edges, shape: "2^k edges" }
}

/// Few edges among many vertices: the text is far larger than anything else.
fn thin(cx: &mut Ctx) -> gen::Spec {
    let n = if cx.big() { cx.rng.range(600, 1500) } else { cx.rng.range(40, 120) };
    let und = cx.rng.bool();
    let k = cx.rng.below(n / 2);
    let edges = (0..k).map(|_| (cx.rng.below(n), cx.rng.below(n))).collect();
    gen::Spec { und, n, edges, shape: "thin" }
}

struct Handle(capi::GphrxGraph, capi::GphrxCompressedGraph, capi::GphrxCsrSquareMatrix);
impl Drop for Handle {
    fn drop(&mut self) {
        unsafe {
            capi::free_gphrx_graph(self.0);
            capi::free_gphrx_compressed_graph(self.1);
            capi::free_gphrx_matrix(self.2);
        }
    }
}
fn handle() -> Handle {
    let n = std::ptr::null_mut;
    Handle(capi::GphrxGraph { graph_ptr: n() }, capi::GphrxCompressedGraph { graph_ptr: n() }, capi::GphrxCsrSquareMatrix { matrix_ptr: n() })
}

fn describe(cx: &mut Ctx, what: &str, m: &Model) {
    cx.say(|| format!("{} of {}", what, m.brief()));
    cx.feed(m.n);
    for e in m.e.iter().take(64) {
        cx.feed(e.0 ^ e.1.rotate_left(32));
    }
}

fn built(cx: &mut Ctx, s: &gen::Spec) -> Result<(Graph, Model), Fail> {
    let r = gen::graph_of(cx, s)?;
    describe(cx, "a graph", &r.1);
    Ok(r)
}

fn graphs(cx: &mut Ctx, text: bool) -> Res {
    let s = if text { thin(cx) } else { powers(cx) };
    let (g, m) = built(cx, &s)?;
    let mut h = handle();
    let img = codec::write_graph(m.und, m.n, &m.e.iter().copied().collect::<Vec<_>>());
    h.0 = cx.setup(|_| unsafe { capi::gphrx_from_bytes(img.as_ptr(), img.len(), std::ptr::null_mut()) });
    if h.0.graph_ptr.is_null() {
        return Err(Fail::Skip("no C graph"));
    }
    let c = h.0;
    let views = if text {
        vec![
            view("matrix_string", 0, |_| rust(g.matrix_string())),
            view("gphrx_matrix_string", 0, |w| unsafe { ctext(capi::gphrx_matrix_string(c), w) }),
            view("gphrx_matrix_string (no room for the final byte)", 1, |w| unsafe { ctext(capi::gphrx_matrix_string(c), w) }),
        ]
    } else {
        vec![
            view("to_bytes", 0, |_| rust(g.to_bytes())),
            view("gphrx_to_bytes", 0, |w| unsafe { cimage(|l| capi::gphrx_to_bytes(c, l), w) }),
        ]
    };
    let probe: Vec<(u64, u64)> = m.e.iter().take(20).copied().collect();
    attempts(cx, views, &|| {
        same("the graph", &g, &m)?;
        unsafe {
            let (n, e) = (capi::gphrx_vertex_count(c), capi::gphrx_edge_count(c));
            if (n, e) != (m.n, m.e.len() as u64) {
                return Err(format!("the C graph has {} vertices and {} edges, not {} and {}", n, e, m.n, m.e.len()));
            }
            match probe.iter().find(|p| capi::gphrx_does_edge_exist(c, p.0, p.1) != 1) {
                Some(p) => Err(format!("the C graph has lost {:?}", p)),
                None => Ok(()),
            }
        }
    })
}

fn compressed(cx: &mut Ctx, text: bool) -> Res {
    let mut s = if text { thin(cx) } else { powers(cx) };
    // one edge for a block
    let n = s.n;
    if text {
        s.n = n * 8;
        s.edges.iter_mut().for_each(|e| *e = (e.0 * 8 + e.1 % 8, e.1 * 8 + e.0 % 8));
    } else {
        if n > 1 << 60 {
            s.edges.iter_mut().for_each(|e| *e = (e.0 >> 3, e.1 >> 3));
            s.n = n >> 3;
        }
        s.edges.iter_mut().for_each(|e| *e = (e.0 * 8 + 3, e.1 * 8 + 5));
        s.edges.iter_mut().for_each(|e| if s.und && e.0 > e.1 { *e = (e.1, e.0) });
        s.n = s.edges.iter().map(|e| e.0.max(e.1)).max().unwrap() + 1;
    }
    let (g, m) = built(cx, &s)?;
    let c = cx.setup(|_| g.compress(1));
    drop(g);
    let words = m.words();
    let want = codec::CModel { und: m.und, n: m.n, level: 1, w: words };
    let img = codec::write_compressed(want.und, want.n, 1, &want.w.iter().map(|(k, w)| (*k, *w)).collect::<Vec<_>>());
    let mut h = handle();
    h.1 = cx.setup(|_| unsafe { capi::gphrx_compressed_graph_from_bytes(img.as_ptr(), img.len(), std::ptr::null_mut()) });
    if h.1.graph_ptr.is_null() {
        return Err(Fail::Skip("no C graph"));
    }
    let k = h.1;
    let views = if text {
        vec![
            view("matrix_string of a compressed graph", 0, |_| rust(c.matrix_string())),
            view("gphrx_compressed_graph_matrix_string", 0, |w| unsafe { ctext(capi::gphrx_compressed_graph_matrix_string(k), w) }),
            view("gphrx_compressed_graph_matrix_string (no room for the final byte)", 1, |w| unsafe { ctext(capi::gphrx_compressed_graph_matrix_string(k), w) }),
        ]
    } else {
        vec![
            view("to_bytes of a compressed graph", 0, |_| rust(c.to_bytes())),
            view("gphrx_compressed_graph_to_bytes", 0, |w| unsafe { cimage(|l| capi::gphrx_compressed_graph_to_bytes(k, l), w) }),
        ]
    };
    attempts(cx, views, &|| {
        csame("the compressed graph", &c, &want)?;
        for (at, w) in want.w.iter().take(20) {
            let got = unsafe { capi::gphrx_get_compressed_matrix_entry(k, at.0, at.1) };
            if got != *w {
                return Err(format!("block {:?} of the C graph is {:#x}, not {:#x}", at, got, w));
            }
        }
        Ok(())
    })
}

fn pooled(cx: &mut Ctx) -> Res {
    let mut s = thin(cx);
    let b = cx.rng.range(1, 4);
    s.n *= b;
    s.edges.iter_mut().for_each(|e| *e = (e.0 * b, e.1 * b));
    let (g, m) = built(cx, &s)?;
    let p = cx.setup(|_| g.find_avg_pool_matrix(b));
    let img = codec::write_graph(m.und, m.n, &m.e.iter().copied().collect::<Vec<_>>());
    let mut h = handle();
    cx.setup(|_| unsafe {
        h.0 = capi::gphrx_from_bytes(img.as_ptr(), img.len(), std::ptr::null_mut());
        h.2 = capi::gphrx_find_avg_pool_matrix(h.0, b);
    });
    if h.2.matrix_ptr.is_null() {
        return Err(Fail::Skip("no C matrix"));
    }
    let c = h.2;
    let d = cx.rng.below(12) as usize;
    cx.say(|| format!("pooled by {}, {} decimals", b, d));
    let cells: BTreeMap<(u64, u64), u64> = (&p).into_iter().map(|(v, c, r)| ((c, r), v.to_bits())).collect();
    let views = vec![
        view("to_string_with_precision of a pooled matrix", 0, |_| rust(p.to_string_with_precision(d))),
        view("gphrx_matrix_to_string_with_precision", 0, |w| unsafe { ctext(capi::gphrx_matrix_to_string_with_precision(c, d), w) }),
        view("gphrx_matrix_to_string_with_precision (no room for the final byte)", 1, |w| unsafe { ctext(capi::gphrx_matrix_to_string_with_precision(c, d), w) }),
        view("gphrx_matrix_to_string", 0, |w| unsafe { ctext(capi::gphrx_matrix_to_string(c), w) }),
        view("gphrx_matrix_to_string (no room for the final byte)", 1, |w| unsafe { ctext(capi::gphrx_matrix_to_string(c), w) }),
    ];
    attempts(cx, views, &|| {
        let now: BTreeMap<(u64, u64), u64> = (&p).into_iter().map(|(v, c, r)| ((c, r), v.to_bits())).collect();
        if now != cells {
            return Err("the pooled matrix has changed".into());
        }
        for (at, v) in cells.iter().take(20) {
            if unsafe { capi::gphrx_matrix_get_entry(c, at.0, at.1) }.to_bits() != *v {
                return Err(format!("entry {:?} of the C matrix has changed", at));
            }
        }
        Ok(())
    })
}

/// Takes a text and compares it, without any memory of its own.
struct Sink<'a>(&'a [u8], usize, bool);
impl Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let end = self.1 + s.len();
        self.2 &= self.0.get(self.1..end) == Some(s.as_bytes());
        self.1 = end;
        Ok(())
    }
}

/// The Display of a matrix may need memory or not; it may fail or not; it does not panic and
/// does not pass off something else as the text.
fn shown(cx: &mut Ctx, what: &str, m: &dyn std::fmt::Display) -> Res {
    let want = cx.setup(|_| m.to_string());
    if want.len() < 2048 {
        return Ok(());
    }
    let mut s = Sink(want.as_bytes(), 0, true);
    let r = {
        let _g = Scarce::from(want.len());
        write!(s, "{}", m)
    };
    ensure!(r.is_err() || s.2 && s.1 == want.len(), "{} shows something else when memory is scarce", what);
    cx.count("displays when memory is scarce", 1);
    Ok(())
}

macro_rules! numeric {
    ($cx:expr, $t:ty) => {{
        let cx: &mut Ctx = $cx;
        let s = thin(cx);
        let mut a = CsrSquareMatrix::<$t>::new();
        let mut cells: BTreeMap<(u64, u64), $t> = BTreeMap::new();
        cx.setup(|cx| {
            for e in &s.edges {
                let v = (cx.rng.below(100) + 1) as $t;
                a.set_entry(v, e.0, e.1);
                cells.insert(*e, v);
            }
            a.set_entry(0 as $t, s.n - 1, s.n - 1);
            cells.remove(&(s.n - 1, s.n - 1));
        });
        let d = cx.rng.below(8) as usize;
        cx.feed(s.n ^ cells.len() as u64 * 777);
        cx.say(|| format!("{} matrix of {} rows, {} entries, {} decimals", stringify!($t), s.n, cells.len(), d));
        shown(cx, concat!("a matrix of ", stringify!($t)), &a)?;
        let name = concat!("to_string_with_precision of ", stringify!($t));
        let views = vec![
            view(name, 0, |_| rust(a.to_string_with_precision(d))),
            view(name, 0, |_| rust(a.to_string_with_precision(d % 3))),
        ];
        attempts(cx, views, &|| {
            let now: BTreeMap<(u64, u64), $t> = (&a).into_iter().map(|(v, c, r)| ((c, r), v)).collect();
            if now == cells && a.dimension() == s.n { Ok(()) } else { Err("the matrix has changed".into()) }
        })
    }};
}

fn adjacency(cx: &mut Ctx) -> Res {
    let s = thin(cx);
    let mut a = CsrAdjacencyMatrix::new();
    cx.setup(|_| {
        a.set_entry(0, s.n - 1, s.n - 1);
        for e in &s.edges {
            a.set_entry(1, e.0, e.1);
        }
    });
    cx.feed(s.n ^ s.edges.len() as u64 * 777);
    cx.say(|| format!("adjacency matrix of {} rows, {} writes", s.n, s.edges.len()));
    shown(cx, "an adjacency matrix", &a)?;
    let want: std::collections::BTreeSet<(u64, u64)> = s.edges.iter().copied().collect();
    let views = vec![view("try_to_string", 0, |_| rust(a.try_to_string()))];
    attempts(cx, views, &|| {
        let now: std::collections::BTreeSet<(u64, u64)> = (&a).into_iter().collect();
        if now == want && a.dimension() == s.n { Ok(()) } else { Err("the matrix has changed".into()) }
    })
}

pub fn case(cx: &mut Ctx) -> Res {
    if cfg!(not(feature = "monalloc")) {
        return Err(Fail::Skip("needs the monitoring allocator"));
    }
    match cx.rng.below(13) {
        0 | 1 => graphs(cx, false),
        2 | 3 => graphs(cx, true),
        4 | 5 => compressed(cx, false),
        6 | 7 => compressed(cx, true),
        8 => pooled(cx),
        9 => adjacency(cx),
        10 => numeric!(cx, f64),
        11 => match cx.rng.below(5) {
            0 => numeric!(cx, f32),
            1 => numeric!(cx, u8),
            2 => numeric!(cx, u16),
            3 => numeric!(cx, u32),
            _ => numeric!(cx, u128),
        },
        _ => match cx.rng.below(5) {
            0 => numeric!(cx, i8),
            1 => numeric!(cx, i16),
            2 => numeric!(cx, i32),
            3 => numeric!(cx, i64),
            _ => numeric!(cx, i128),
        },
    }
}
