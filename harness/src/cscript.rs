//! Histories of C calls: a small operation language that is run (a) by an in-process
//! interpreter over the extern "C" functions, (b) by a C program compiled against the
//! published header, and (c) by a shadow interpreter over the Rust library, whose answers
//! are the expectation.
use crate::ctx::Ctx;
use crate::gen;
use crate::rng::Rng;
use graphrox::matrix::{CsrSquareMatrix, MatrixRepresentation};
use graphrox::{CompressedGraph, Graph, GraphRepresentation};
use graphrox_c as capi;
use std::fmt::Write;

/// A slot number, or NUL for a null object.
pub type S = usize;
pub const NUL: S = usize::MAX;

#[derive(Clone, Debug, PartialEq)]
pub enum Src {
    Hex(Vec<u8>),
    Slot(S),
    /// null pointer, with this length
    Null(usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    New(S, bool),
    Dup(S, S),
    Add(S, u64, u64),
    Del(S, u64, u64),
    /// mode 0: list; 1: null pointer and length 0; 2: null pointer and length 3; 3: pointer and length 0
    Vert(S, u64, Vec<u64>, u8),
    /// undirected, vertices, edges, edge exists, in-degree, out-degree
    Q(S, u8, u64, u64),
    Text(S, S),
    Bytes(S, S, bool),
    Load(S, Src, bool),
    Edges(S, S, bool),
    In(S, S, u64, bool),
    Out(S, S, u64, bool),
    Pool(S, S, u64),
    Approx(S, S, u64, f64),
    Compress(S, S, u8),
    CDup(S, S),
    /// level, undirected, vertices, edges, edge exists, block word
    CQ(S, u8, u64, u64),
    CText(S, S),
    CBytes(S, S, bool),
    CLoad(S, Src, bool),
    Decomp(S, S),
    MDup(S, S),
    /// dimension, entries
    MQ(S, u8),
    MGet(S, u64, u64),
    MText(S, S),
    MTextP(S, S, usize),
    MEntries(S, S, bool),
    Reread(S),
    Free(S),
    /// release functions given null
    FreeNulls(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Obs {
    None,
    U(u64),
    F(u64),
    Text(String),
    Bytes(Vec<u8>),
    Pairs(Vec<(u64, u64)>),
    Ones(Vec<u64>),
    Trips(Vec<(u64, u64, u64)>),
    /// null buffer, and the length stored (if a length pointer was given)
    Null(Option<u64>),
    /// object returned or null object; error code stored (if an error pointer was given)
    Obj(bool, Option<u8>),
}

fn canon_bytes(b: &[u8]) -> Vec<u8> {
    let (h, r) = if b.starts_with(&[0x7a, 0xe7, 0x1f, 0xfd]) {
        (26, 16)
    } else if b.starts_with(&[0x71, 0xff, 0x7a, 0xed]) {
        (42, 24)
    } else {
        return b.to_vec();
    };
    if b.len() < h || (b.len() - h) % r != 0 {
        return b.to_vec();
    }
    let mut recs: Vec<&[u8]> = b[h..].chunks(r).collect();
    recs.sort_unstable();
    let mut o = b[..h].to_vec();
    for x in recs {
        o.extend_from_slice(x);
    }
    o
}
impl Obs {
    pub fn canon(self) -> Obs {
        match self {
            Obs::Bytes(b) => Obs::Bytes(canon_bytes(&b)),
            Obs::Pairs(mut v) => {
                v.sort_unstable();
                Obs::Pairs(v)
            }
            Obs::Ones(mut v) => {
                v.sort_unstable();
                Obs::Ones(v)
            }
            Obs::Trips(mut v) => {
                v.sort_unstable();
                Obs::Trips(v)
            }
            o => o,
        }
    }
}

// ---------------------------------------------------------------- shadow (Rust library)

#[derive(Clone)]
pub enum Shadow {
    Empty,
    G(Graph),
    C(CompressedGraph),
    M(CsrSquareMatrix<f64>),
    /// a buffer or list: what it holds
    Buf(Obs),
    Bytes(Vec<u8>),
}
pub struct World {
    pub s: Vec<Shadow>,
}

impl World {
    pub fn new() -> Self {
        World { s: vec![] }
    }
    fn put(&mut self, d: S, x: Shadow) {
        while self.s.len() <= d {
            self.s.push(Shadow::Empty);
        }
        self.s[d] = x;
    }
    fn g(&self, s: S) -> Option<&Graph> {
        match self.s.get(s) {
            Some(Shadow::G(g)) => Some(g),
            _ => None,
        }
    }
    fn c(&self, s: S) -> Option<&CompressedGraph> {
        match self.s.get(s) {
            Some(Shadow::C(g)) => Some(g),
            _ => None,
        }
    }
    fn m(&self, s: S) -> Option<&CsrSquareMatrix<f64>> {
        match self.s.get(s) {
            Some(Shadow::M(g)) => Some(g),
            _ => None,
        }
    }
    fn src(&self, s: &Src) -> Option<Vec<u8>> {
        match s {
            Src::Hex(b) => Some(b.clone()),
            Src::Slot(i) => match &self.s[*i] {
                Shadow::Bytes(b) => Some(b.clone()),
                _ => None,
            },
            Src::Null(0) => Some(vec![]),
            Src::Null(_) => None,
        }
    }
    fn buf(&mut self, d: S, o: Option<Obs>, nolen: bool) -> Obs {
        match o {
            Some(o) => {
                let o = o.canon();
                self.put(d, match &o {
                    Obs::Bytes(b) => Shadow::Bytes(b.clone()),
                    _ => Shadow::Buf(o.clone()),
                });
                o
            }
            None => Obs::Null(if nolen { None } else { Some(0) }),
        }
    }
    fn obj(&mut self, d: S, x: Option<Shadow>) -> Obs {
        let ok = x.is_some();
        if let Some(x) = x {
            self.put(d, x);
        }
        Obs::Obj(ok, None)
    }

    /// What the library answers.
    pub fn run(&mut self, op: &Op) -> Obs {
        match op {
            Op::New(d, und) => self.obj(*d, Some(Shadow::G(if *und { Graph::new_undirected() } else { Graph::new_directed() }))),
            Op::Dup(d, s) => {
                let x = self.g(*s).map(|g| Shadow::G(g.clone()));
                self.obj(*d, x)
            }
            Op::Add(s, a, b) => {
                if let Some(Shadow::G(g)) = self.s.get_mut(*s) {
                    g.add_edge(*a, *b);
                }
                Obs::None
            }
            Op::Del(s, a, b) => {
                if let Some(Shadow::G(g)) = self.s.get_mut(*s) {
                    g.delete_edge(*a, *b);
                }
                Obs::None
            }
            Op::Vert(s, v, l, mode) => {
                if let Some(Shadow::G(g)) = self.s.get_mut(*s) {
                    match mode {
                        0 => g.add_vertex(*v, Some(l)),
                        2 => {}
                        _ => g.add_vertex(*v, None),
                    }
                }
                Obs::None
            }
            Op::Q(s, q, a, b) => Obs::U(match self.g(*s) {
                None => 0,
                Some(g) => match q {
                    0 => g.is_undirected() as u64,
                    1 => g.vertex_count(),
                    2 => g.edge_count(),
                    3 => g.does_edge_exist(*a, *b) as u64,
                    4 => g.get_vertex_in_degree(*a),
                    _ => g.get_vertex_out_degree(*a),
                },
            }),
            Op::Text(d, s) => {
                let t = self.g(*s).and_then(|g| g.matrix_string().ok()).map(Obs::Text);
                self.buf(*d, t, true)
            }
            Op::Bytes(d, s, nolen) => {
                let t = self.g(*s).and_then(|g| g.to_bytes().ok()).map(Obs::Bytes);
                self.buf(*d, t, *nolen)
            }
            Op::Load(d, src, noerr) => {
                let g = self.src(src).and_then(|b| Graph::try_from(&crate::codec::Placed::new(&b)[..]).ok());
                let ok = g.is_some();
                self.obj(*d, g.map(Shadow::G));
                Obs::Obj(ok, if *noerr { None } else { Some(!ok as u8) })
            }
            Op::Edges(d, s, nolen) => {
                let t = self.g(*s).map(|g| Obs::Pairs(g.into_iter().collect()));
                self.buf(*d, t, *nolen)
            }
            Op::In(d, s, v, nolen) => {
                let t = self.g(*s).map(|g| Obs::Ones(g.get_vertex_in_edges(*v)));
                self.buf(*d, t, *nolen)
            }
            Op::Out(d, s, v, nolen) => {
                let t = self.g(*s).map(|g| Obs::Ones(g.get_vertex_out_edges(*v)));
                self.buf(*d, t, *nolen)
            }
            Op::Pool(d, s, b) => {
                let x = self.g(*s).map(|g| Shadow::M(g.find_avg_pool_matrix(*b)));
                self.obj(*d, x)
            }
            Op::Approx(d, s, b, t) => {
                let x = self.g(*s).map(|g| Shadow::G(g.approximate(*b, *t)));
                self.obj(*d, x)
            }
            Op::Compress(d, s, l) => {
                let x = self.g(*s).map(|g| Shadow::C(g.compress(*l)));
                self.obj(*d, x)
            }
            Op::CDup(d, s) => {
                let x = self.c(*s).map(|g| Shadow::C(g.clone()));
                self.obj(*d, x)
            }
            Op::CQ(s, q, a, b) => Obs::U(match self.c(*s) {
                None => 0,
                Some(g) => match q {
                    0 => g.compression_level() as u64,
                    1 => g.is_undirected() as u64,
                    2 => g.vertex_count(),
                    3 => g.edge_count(),
                    4 => g.does_edge_exist(*a, *b) as u64,
                    _ => g.get_compressed_matrix_entry(*a, *b),
                },
            }),
            Op::CText(d, s) => {
                let t = self.c(*s).and_then(|g| g.matrix_string().ok()).map(Obs::Text);
                self.buf(*d, t, true)
            }
            Op::CBytes(d, s, nolen) => {
                let t = self.c(*s).and_then(|g| g.to_bytes().ok()).map(Obs::Bytes);
                self.buf(*d, t, *nolen)
            }
            Op::CLoad(d, src, noerr) => {
                let g = self.src(src).and_then(|b| CompressedGraph::try_from(&crate::codec::Placed::new(&b)[..]).ok());
                let ok = g.is_some();
                self.obj(*d, g.map(Shadow::C));
                Obs::Obj(ok, if *noerr { None } else { Some(!ok as u8) })
            }
            Op::Decomp(d, s) => {
                let x = self.c(*s).map(|g| Shadow::G(g.decompress()));
                self.obj(*d, x)
            }
            Op::MDup(d, s) => {
                let x = self.m(*s).map(|g| Shadow::M(g.clone()));
                self.obj(*d, x)
            }
            Op::MQ(s, q) => Obs::U(match self.m(*s) {
                None => 0,
                Some(m) => {
                    if *q == 0 {
                        m.dimension()
                    } else {
                        m.entry_count()
                    }
                }
            }),
            Op::MGet(s, c, r) => Obs::F(self.m(*s).map(|m| m.get_entry(*c, *r)).unwrap_or(0.0).to_bits()),
            Op::MText(d, s) => {
                let t = self.m(*s).and_then(|m| m.to_string_with_precision(2).ok()).map(Obs::Text);
                self.buf(*d, t, true)
            }
            Op::MTextP(d, s, p) => {
                let t = self.m(*s).and_then(|m| m.to_string_with_precision(*p).ok()).map(Obs::Text);
                self.buf(*d, t, true)
            }
            Op::MEntries(d, s, nolen) => {
                let t = self.m(*s).map(|m| Obs::Trips(m.into_iter().map(|(v, c, r)| (v.to_bits(), c, r)).collect()));
                self.buf(*d, t, *nolen)
            }
            Op::Reread(s) => match &self.s[*s] {
                Shadow::Buf(o) => o.clone(),
                Shadow::Bytes(b) => Obs::Bytes(b.clone()),
                _ => Obs::None,
            },
            Op::Free(s) => {
                self.s[*s] = Shadow::Empty;
                Obs::None
            }
            Op::FreeNulls(_) => Obs::None,
        }
    }
}

// ---------------------------------------------------------------- in-process C calls

pub enum Cell {
    Empty,
    G(capi::GphrxGraph),
    C(capi::GphrxCompressedGraph),
    M(capi::GphrxCsrSquareMatrix),
    Bytes(*mut u8, usize),
    Text(*mut std::ffi::c_char),
    Pairs(*mut capi::GphrxGraphEdge, usize),
    Ones(*mut capi::GphrxGraphVertex, usize),
    Trips(*mut capi::GphrxMatrixEntry, usize),
}
pub struct Process {
    pub s: Vec<Cell>,
}
const UNSET: usize = 0xdead_beef_dead;
impl Process {
    pub fn new() -> Self {
        Process { s: Vec::new() }
    }
    fn put(&mut self, d: S, x: Cell) {
        while self.s.len() <= d {
            self.s.push(Cell::Empty);
        }
        self.s[d] = x;
    }
    fn g(&self, s: S) -> capi::GphrxGraph {
        match self.s.get(s) {
            Some(Cell::G(g)) => *g,
            _ => capi::GphrxGraph { graph_ptr: std::ptr::null_mut() },
        }
    }
    fn c(&self, s: S) -> capi::GphrxCompressedGraph {
        match self.s.get(s) {
            Some(Cell::C(g)) => *g,
            _ => capi::GphrxCompressedGraph { graph_ptr: std::ptr::null_mut() },
        }
    }
    fn m(&self, s: S) -> capi::GphrxCsrSquareMatrix {
        match self.s.get(s) {
            Some(Cell::M(g)) => *g,
            _ => capi::GphrxCsrSquareMatrix { matrix_ptr: std::ptr::null_mut() },
        }
    }
    /// Images from elsewhere lie at any alignment, in memory that goes away after the call.
    fn src(&self, s: &Src) -> (*const u8, usize, Option<crate::codec::Placed>) {
        match s {
            Src::Hex(b) => {
                let at = crate::codec::Placed::new(b);
                (at.as_ptr(), at.len(), Some(at))
            }
            Src::Slot(i) => match &self.s[*i] {
                Cell::Bytes(p, l) => (*p as *const u8, *l, None),
                _ => (std::ptr::null(), 0, None),
            },
            Src::Null(n) => (std::ptr::null(), *n, None),
        }
    }
    unsafe fn read(&self, s: S) -> Obs {
        match &self.s[s] {
            Cell::Bytes(p, l) => Obs::Bytes(crate::hread::slice(*p, *l).to_vec()).canon(),
            Cell::Text(p) => Obs::Text(std::ffi::CStr::from_ptr(*p).to_string_lossy().into_owned()),
            Cell::Pairs(p, l) => Obs::Pairs(crate::hread::slice(*p, *l).iter().map(|e| (e.from_vertex, e.to_vertex)).collect()).canon(),
            Cell::Ones(p, l) => Obs::Ones(crate::hread::slice(*p, *l).iter().map(|e| e.vertex_id).collect()).canon(),
            Cell::Trips(p, l) => Obs::Trips(crate::hread::slice(*p, *l).iter().map(|e| (e.entry.to_bits(), e.col, e.row)).collect()).canon(),
            _ => Obs::None,
        }
    }
    fn graph(&mut self, d: S, h: capi::GphrxGraph, err: Option<u8>) -> Obs {
        let ok = !h.graph_ptr.is_null();
        if ok {
            self.put(d, Cell::G(h));
        }
        Obs::Obj(ok, err)
    }
    fn cgraph(&mut self, d: S, h: capi::GphrxCompressedGraph, err: Option<u8>) -> Obs {
        let ok = !h.graph_ptr.is_null();
        if ok {
            self.put(d, Cell::C(h));
        }
        Obs::Obj(ok, err)
    }
    fn matrix(&mut self, d: S, h: capi::GphrxCsrSquareMatrix) -> Obs {
        let ok = !h.matrix_ptr.is_null();
        if ok {
            self.put(d, Cell::M(h));
        }
        Obs::Obj(ok, None)
    }
    unsafe fn text(&mut self, d: S, p: *mut std::ffi::c_char) -> Obs {
        if p.is_null() {
            return Obs::Null(None);
        }
        self.put(d, Cell::Text(p));
        self.read(d)
    }
    /// Call a list function with a length pointer or without; without, the length needed for
    /// the release comes from a second call.
    unsafe fn list<T>(&mut self, d: S, nolen: bool, f: impl Fn(*mut usize) -> *mut T, cell: fn(*mut T, usize) -> Cell, free: unsafe extern "C" fn(*mut T, usize)) -> Obs {
        let mut len = UNSET;
        let p = f(if nolen { std::ptr::null_mut() } else { &mut len });
        if p.is_null() {
            return Obs::Null(if nolen { None } else { Some(len as u64) });
        }
        if nolen {
            let q = f(&mut len);
            free(q, len);
        }
        self.put(d, cell(p, len));
        self.read(d)
    }
    unsafe fn release(&mut self, s: S) {
        match std::mem::replace(&mut self.s[s], Cell::Empty) {
            Cell::Empty => {}
            Cell::G(h) => capi::free_gphrx_graph(h),
            Cell::C(h) => capi::free_gphrx_compressed_graph(h),
            Cell::M(h) => capi::free_gphrx_matrix(h),
            Cell::Bytes(p, l) => capi::free_gphrx_bytes_buffer(p, l),
            Cell::Text(p) => capi::free_gphrx_string_buffer(p),
            Cell::Pairs(p, l) => capi::free_gphrx_edge_list(p, l),
            Cell::Ones(p, l) => capi::free_gphrx_vertex_list(p, l),
            Cell::Trips(p, l) => capi::free_gphrx_matrix_entry_list(p, l),
        }
    }

    pub unsafe fn run(&mut self, op: &Op) -> Obs {
        match op {
            Op::New(d, und) => {
                let h = if *und { capi::gphrx_new_undirected() } else { capi::gphrx_new_directed() };
                self.graph(*d, h, None)
            }
            Op::Dup(d, s) => {
                let h = capi::gphrx_duplicate(self.g(*s));
                self.graph(*d, h, None)
            }
            Op::Add(s, a, b) => {
                capi::gphrx_add_edge(self.g(*s), *a, *b);
                Obs::None
            }
            Op::Del(s, a, b) => {
                capi::gphrx_delete_edge(self.g(*s), *a, *b);
                Obs::None
            }
            Op::Vert(s, v, l, mode) => {
                let (p, n) = match mode {
                    0 => (l.as_ptr(), l.len()),
                    1 => (std::ptr::null(), 0),
                    2 => (std::ptr::null(), 3),
                    _ => (l.as_ptr(), 0),
                };
                capi::gphrx_add_vertex(self.g(*s), *v, p, n);
                Obs::None
            }
            Op::Q(s, q, a, b) => {
                let h = self.g(*s);
                Obs::U(match q {
                    0 => capi::gphrx_is_undirected(h) as u64,
                    1 => capi::gphrx_vertex_count(h),
                    2 => capi::gphrx_edge_count(h),
                    3 => capi::gphrx_does_edge_exist(h, *a, *b) as u64,
                    4 => capi::gphrx_get_vertex_in_degree(h, *a),
                    _ => capi::gphrx_get_vertex_out_degree(h, *a),
                })
            }
            Op::Text(d, s) => {
                let p = capi::gphrx_matrix_string(self.g(*s));
                self.text(*d, p)
            }
            Op::Bytes(d, s, nolen) => {
                let h = self.g(*s);
                self.list(*d, *nolen, |l| unsafe { capi::gphrx_to_bytes(h, l) }, Cell::Bytes, capi::free_gphrx_bytes_buffer)
            }
            Op::Load(d, src, noerr) => {
                let (p, l, at) = self.src(src);
                let mut e = 77u8;
                let h = capi::gphrx_from_bytes(p, l, if *noerr { std::ptr::null_mut() } else { &mut e });
                drop(at);
                self.graph(*d, h, if *noerr { None } else { Some(e) })
            }
            Op::Edges(d, s, nolen) => {
                let h = self.g(*s);
                self.list(*d, *nolen, |l| unsafe { capi::gphrx_get_edge_list(h, l) }, Cell::Pairs, capi::free_gphrx_edge_list)
            }
            Op::In(d, s, v, nolen) => {
                let h = self.g(*s);
                self.list(*d, *nolen, |l| unsafe { capi::gphrx_get_vertex_in_edges_list(h, *v, l) }, Cell::Ones, capi::free_gphrx_vertex_list)
            }
            Op::Out(d, s, v, nolen) => {
                let h = self.g(*s);
                self.list(*d, *nolen, |l| unsafe { capi::gphrx_get_vertex_out_edges_list(h, *v, l) }, Cell::Ones, capi::free_gphrx_vertex_list)
            }
            Op::Pool(d, s, b) => {
                let h = capi::gphrx_find_avg_pool_matrix(self.g(*s), *b);
                self.matrix(*d, h)
            }
            Op::Approx(d, s, b, t) => {
                let h = capi::gphrx_approximate(self.g(*s), *b, *t);
                self.graph(*d, h, None)
            }
            Op::Compress(d, s, l) => {
                let h = capi::gphrx_compress(self.g(*s), *l);
                self.cgraph(*d, h, None)
            }
            Op::CDup(d, s) => {
                let h = capi::gphrx_compressed_graph_duplicate(self.c(*s));
                self.cgraph(*d, h, None)
            }
            Op::CQ(s, q, a, b) => {
                let h = self.c(*s);
                Obs::U(match q {
                    0 => capi::gphrx_compressed_graph_compression_level(h) as u64,
                    1 => capi::gphrx_compressed_graph_is_undirected(h) as u64,
                    2 => capi::gphrx_compressed_graph_vertex_count(h),
                    3 => capi::gphrx_compressed_graph_edge_count(h),
                    4 => capi::gphrx_compressed_graph_does_edge_exist(h, *a, *b) as u64,
                    _ => capi::gphrx_get_compressed_matrix_entry(h, *a, *b),
                })
            }
            Op::CText(d, s) => {
                let p = capi::gphrx_compressed_graph_matrix_string(self.c(*s));
                self.text(*d, p)
            }
            Op::CBytes(d, s, nolen) => {
                let h = self.c(*s);
                self.list(*d, *nolen, |l| unsafe { capi::gphrx_compressed_graph_to_bytes(h, l) }, Cell::Bytes, capi::free_gphrx_bytes_buffer)
            }
            Op::CLoad(d, src, noerr) => {
                let (p, l, at) = self.src(src);
                let mut e = 77u8;
                let h = capi::gphrx_compressed_graph_from_bytes(p, l, if *noerr { std::ptr::null_mut() } else { &mut e });
                drop(at);
                self.cgraph(*d, h, if *noerr { None } else { Some(e) })
            }
            Op::Decomp(d, s) => {
                let h = capi::gphrx_decompress(self.c(*s));
                self.graph(*d, h, None)
            }
            Op::MDup(d, s) => {
                let h = capi::gphrx_matrix_duplicate(self.m(*s));
                self.matrix(*d, h)
            }
            Op::MQ(s, q) => Obs::U(if *q == 0 { capi::gphrx_matrix_dimension(self.m(*s)) } else { capi::gphrx_matrix_entry_count(self.m(*s)) }),
            Op::MGet(s, c, r) => Obs::F(capi::gphrx_matrix_get_entry(self.m(*s), *c, *r).to_bits()),
            Op::MText(d, s) => {
                let p = capi::gphrx_matrix_to_string(self.m(*s));
                self.text(*d, p)
            }
            Op::MTextP(d, s, n) => {
                let p = capi::gphrx_matrix_to_string_with_precision(self.m(*s), *n);
                self.text(*d, p)
            }
            Op::MEntries(d, s, nolen) => {
                let h = self.m(*s);
                self.list(*d, *nolen, |l| unsafe { capi::gphrx_matrix_get_entry_list(h, l) }, Cell::Trips, capi::free_gphrx_matrix_entry_list)
            }
            Op::Reread(s) => self.read(*s),
            Op::Free(s) => {
                self.release(*s);
                Obs::None
            }
            Op::FreeNulls(n) => {
                use std::ptr::null_mut;
                capi::free_gphrx_string_buffer(null_mut());
                capi::free_gphrx_bytes_buffer(null_mut(), *n);
                capi::free_gphrx_graph(capi::GphrxGraph { graph_ptr: null_mut() });
                capi::free_gphrx_edge_list(null_mut(), *n);
                capi::free_gphrx_vertex_list(null_mut(), *n);
                capi::free_gphrx_compressed_graph(capi::GphrxCompressedGraph { graph_ptr: null_mut() });
                capi::free_gphrx_matrix(capi::GphrxCsrSquareMatrix { matrix_ptr: null_mut() });
                capi::free_gphrx_matrix_entry_list(null_mut(), *n);
                Obs::None
            }
        }
    }
}

// ---------------------------------------------------------------- the C program's language

fn sl(s: S) -> String {
    if s == NUL {
        "-".into()
    } else {
        s.to_string()
    }
}
fn hex(b: &[u8]) -> String {
    let mut o = String::with_capacity(b.len() * 2 + 1);
    for x in b {
        let _ = write!(o, "{:02x}", x);
    }
    if o.is_empty() {
        o.push('.');
    }
    o
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s == "." {
        return Some(vec![]);
    }
    (0..s.len() / 2).map(|k| u8::from_str_radix(s.get(2 * k..2 * k + 2)?, 16).ok()).collect()
}
fn src_line(s: &Src) -> String {
    match s {
        Src::Hex(b) => format!("x {}", hex(b)),
        Src::Slot(i) => format!("s {}", i),
        Src::Null(n) => format!("n {}", n),
    }
}
pub fn line(op: &Op) -> String {
    match op {
        Op::New(d, u) => format!("new {} {}", d, *u as u8),
        Op::Dup(d, s) => format!("dup {} {}", d, sl(*s)),
        Op::Add(s, a, b) => format!("add {} {} {}", sl(*s), a, b),
        Op::Del(s, a, b) => format!("del {} {} {}", sl(*s), a, b),
        Op::Vert(s, v, l, m) => {
            let mut o = format!("vert {} {} {} {}", sl(*s), v, m, l.len());
            for x in l {
                let _ = write!(o, " {}", x);
            }
            o
        }
        Op::Q(s, q, a, b) => format!("q {} {} {} {}", sl(*s), q, a, b),
        Op::Text(d, s) => format!("text {} {}", d, sl(*s)),
        Op::Bytes(d, s, n) => format!("bytes {} {} {}", d, sl(*s), *n as u8),
        Op::Load(d, s, n) => format!("load {} {} {}", d, *n as u8, src_line(s)),
        Op::Edges(d, s, n) => format!("edges {} {} {}", d, sl(*s), *n as u8),
        Op::In(d, s, v, n) => format!("in {} {} {} {}", d, sl(*s), v, *n as u8),
        Op::Out(d, s, v, n) => format!("out {} {} {} {}", d, sl(*s), v, *n as u8),
        Op::Pool(d, s, b) => format!("pool {} {} {}", d, sl(*s), b),
        Op::Approx(d, s, b, t) => format!("approx {} {} {} {}", d, sl(*s), b, t.to_bits()),
        Op::Compress(d, s, l) => format!("compress {} {} {}", d, sl(*s), l),
        Op::CDup(d, s) => format!("cdup {} {}", d, sl(*s)),
        Op::CQ(s, q, a, b) => format!("cq {} {} {} {}", sl(*s), q, a, b),
        Op::CText(d, s) => format!("ctext {} {}", d, sl(*s)),
        Op::CBytes(d, s, n) => format!("cbytes {} {} {}", d, sl(*s), *n as u8),
        Op::CLoad(d, s, n) => format!("cload {} {} {}", d, *n as u8, src_line(s)),
        Op::Decomp(d, s) => format!("decomp {} {}", d, sl(*s)),
        Op::MDup(d, s) => format!("mdup {} {}", d, sl(*s)),
        Op::MQ(s, q) => format!("mq {} {}", sl(*s), q),
        Op::MGet(s, c, r) => format!("mget {} {} {}", sl(*s), c, r),
        Op::MText(d, s) => format!("mtext {} {}", d, sl(*s)),
        Op::MTextP(d, s, p) => format!("mtextp {} {} {}", d, sl(*s), p),
        Op::MEntries(d, s, n) => format!("mentries {} {} {}", d, sl(*s), *n as u8),
        Op::Reread(s) => format!("reread {}", s),
        Op::Free(s) => format!("free {}", s),
        Op::FreeNulls(n) => format!("freenulls {}", n),
    }
}
/// Parse one line of the C program's transcript.
pub fn parse(l: &str) -> Option<Obs> {
    let mut w = l.split_whitespace();
    let k = w.next()?;
    let n = |x: Option<&str>| x?.parse::<u64>().ok();
    Some(
        match k {
            "." => Obs::None,
            "u" => Obs::U(n(w.next())?),
            "f" => Obs::F(n(w.next())?),
            "t" => Obs::Text(String::from_utf8(unhex(w.next()?)?).ok()?),
            "b" => Obs::Bytes(unhex(w.next()?)?),
            "z" => Obs::Null(match w.next()? {
                "-" => None,
                x => Some(x.parse().ok()?),
            }),
            "h" => Obs::Obj(n(w.next())? == 1, match w.next()? {
                "-" => None,
                x => Some(x.parse().ok()?),
            }),
            "p" | "o" | "r" => {
                let v: Option<Vec<u64>> = w.map(|x| x.parse().ok()).collect();
                let v = v?;
                match k {
                    "p" => Obs::Pairs(v.chunks_exact(2).map(|c| (c[0], c[1])).collect()),
                    "o" => Obs::Ones(v),
                    _ => Obs::Trips(v.chunks_exact(3).map(|c| (c[0], c[1], c[2])).collect()),
                }
            }
            _ => return None,
        }
        .canon(),
    )
}

// ---------------------------------------------------------------- generation

fn text_ok(cells: u128, per: u128) -> bool {
    // small enough to build, or far too large for any machine; nothing in between
    let b = cells.saturating_mul(per);
    b < 2_000_000 || b > 1 << 50
}

pub struct Gen {
    pub w: World,
    pub ids: Vec<u64>,
    /// keep everything tiny (interpreters)
    pub tiny: bool,
    pub max_live: usize,
    /// questions asked lately, to be asked again
    asked: Vec<Op>,
}
impl Gen {
    pub fn new(cx: &mut Ctx, tiny: bool) -> Self {
        let r = &mut cx.rng;
        let n = r.range(2, if tiny { 5 } else { 9 });
        let small = r.chance(2, 3);
        let ids = (0..n)
            .map(|_| if small { r.below(if tiny { 12 } else { 40 }) } else { gen::id(r, cx.dict) })
            .collect();
        Gen { w: World::new(), ids, tiny, max_live: if tiny { 8 } else { 24 }, asked: vec![] }
    }
    fn pick(&self, r: &mut Rng, f: impl Fn(&Shadow) -> bool) -> Option<S> {
        let v: Vec<S> = (0..self.w.s.len()).filter(|k| f(&self.w.s[*k])).collect();
        if v.is_empty() {
            None
        } else {
            Some(*r.pick(&v))
        }
    }
    fn fresh(&self, r: &mut Rng) -> S {
        let v: Vec<S> = (0..self.w.s.len()).filter(|k| matches!(self.w.s[*k], Shadow::Empty)).collect();
        if v.is_empty() {
            self.w.s.len()
        } else {
            *r.pick(&v)
        }
    }
    pub fn live(&self) -> usize {
        self.w.s.iter().filter(|s| !matches!(s, Shadow::Empty)).count()
    }
    /// The next call of the history (already applied to the shadow) and its expected outcome.
    pub fn next(&mut self, cx: &mut Ctx) -> (Op, Obs) {
        loop {
            let again = if !self.asked.is_empty() && self.live() < self.max_live && cx.rng.chance(1, 6) { self.again(cx) } else { None };
            if let Some(op) = again.or_else(|| self.choose(cx)) {
                if matches!(op, Op::Q(..) | Op::Text(..) | Op::Bytes(..) | Op::Edges(..) | Op::In(..) | Op::Out(..) | Op::Pool(..) | Op::Approx(..) | Op::Compress(..) | Op::CQ(..) | Op::MTextP(..)) {
                    if self.asked.len() == 6 {
                        self.asked.remove(0);
                    }
                    self.asked.push(op.clone());
                }
                let o = cx.setup(|_| self.w.run(&op));
                return (op, o);
            }
        }
    }
    fn id(&self, r: &mut Rng) -> u64 {
        match r.below(40) {
            0 => u64::MAX,
            1 => r.below(50),
            _ => *r.pick(&self.ids),
        }
    }
    /// A recent question once more, word for word, whatever happened in between.
    fn again(&mut self, cx: &mut Ctx) -> Option<Op> {
        let d = self.fresh(&mut cx.rng);
        let mut op = cx.rng.pick(&self.asked).clone();
        let ok = match &mut op {
            Op::Q(s, ..) => self.w.g(*s).is_some(),
            Op::CQ(s, ..) => self.w.c(*s).is_some(),
            Op::Text(t, s) => {
                *t = d;
                self.w.g(*s).is_some_and(|g| text_ok(g.vertex_count() as u128 * g.vertex_count() as u128, 3))
            }
            Op::MTextP(t, s, p) => {
                *t = d;
                self.w.m(*s).is_some_and(|m| text_ok(m.dimension() as u128 * m.dimension() as u128, *p as u128 + 8))
            }
            Op::Bytes(t, s, _) | Op::Edges(t, s, _) | Op::In(t, s, ..) | Op::Out(t, s, ..) | Op::Pool(t, s, _) | Op::Approx(t, s, ..) | Op::Compress(t, s, _) => {
                *t = d;
                self.w.g(*s).is_some()
            }
            _ => false,
        };
        ok.then_some(op)
    }
    fn choose(&mut self, cx: &mut Ctx) -> Option<Op> {
        let dict = cx.dict;
        let r = &mut cx.rng;
        let d = self.fresh(r);
        let null = r.chance(1, 30);
        let g = if null { Some(NUL) } else { self.pick(r, |s| matches!(s, Shadow::G(_))) };
        let c = if null { Some(NUL) } else { self.pick(r, |s| matches!(s, Shadow::C(_))) };
        let m = if null { Some(NUL) } else { self.pick(r, |s| matches!(s, Shadow::M(_))) };
        let nolen = r.chance(1, 12);
        if self.live() >= self.max_live || r.chance(1, 7) {
            return self.pick(r, |s| !matches!(s, Shadow::Empty)).map(Op::Free);
        }
        if g.is_none() {
            return Some(Op::New(d, r.bool()));
        }
        let (a, b) = (self.id(r), self.id(r));
        Some(match r.below(58) {
            0 => Op::New(d, r.bool()),
            1 => Op::Dup(d, g?),
            2..=9 => Op::Add(g?, a, b),
            10..=11 => Op::Del(g?, a, b),
            12..=14 => {
                let mode = *r.pick(&[0u8, 0, 0, 1, 2, 3]);
                let k = r.below(if self.tiny { 3 } else { 7 });
                let l: Vec<u64> = (0..k).map(|_| self.id(r).min(u64::MAX - 1)).collect();
                Op::Vert(g?, a, l, mode)
            }
            15..=20 => Op::Q(g?, r.below(6) as u8, a, b),
            21 | 22 => {
                let n = self.w.g(g?).map(|x| x.vertex_count()).unwrap_or(0) as u128;
                if !text_ok(n * n, 3) {
                    return None;
                }
                Op::Text(d, g?)
            }
            23..=24 => Op::Bytes(d, g?, nolen),
            25..=26 => Op::Load(d, self.source(r, false)?, r.chance(1, 8)),
            27..=28 => Op::Edges(d, g?, nolen),
            29..=30 => Op::In(d, g?, a, nolen),
            31..=32 => Op::Out(d, g?, a, nolen),
            33..=35 => {
                let n = self.w.g(g?).map(|x| x.vertex_count()).unwrap_or(0);
                Op::Pool(d, g?, gen::blockdim(r, dict, n))
            }
            36..=37 => {
                let n = self.w.g(g?).map(|x| x.vertex_count()).unwrap_or(0);
                let t = *r.pick(&[0.0, 1e-18, 0.01, 0.1, 0.25, 0.5, 1.0, -1.0, 7.5, f64::INFINITY]);
                Op::Approx(d, g?, gen::blockdim(r, dict, n), t)
            }
            38..=40 => Op::Compress(d, g?, if r.bool() { r.below(3) as u8 } else { gen::level(r) }),
            41 => Op::CDup(d, c?),
            42..=44 => {
                let q = r.below(6) as u8;
                if q == 5 {
                    Op::CQ(c?, q, a / 8, b / 8)
                } else {
                    Op::CQ(c?, q, a, b)
                }
            }
            45 => {
                let n = self.w.c(c?).map(|x| x.vertex_count()).unwrap_or(0) as u128 / 8 + 1;
                if !text_ok(n * n, 20) {
                    return None;
                }
                Op::CText(d, c?)
            }
            46 => Op::CBytes(d, c?, nolen),
            47..=48 => Op::CLoad(d, self.source(r, true)?, r.chance(1, 8)),
            49 => Op::Decomp(d, c?),
            50 => Op::MDup(d, m?),
            51 => Op::MQ(m?, r.below(2) as u8),
            52 => {
                let (x, y) = match self.w.m(m?).and_then(|m| m.into_iter().next()) {
                    Some((_, x, y)) if r.bool() => (x, y),
                    _ => (r.below(6), r.below(6)),
                };
                Op::MGet(m?, x, y)
            }
            53 => {
                let n = self.w.m(m?).map(|m| m.dimension()).unwrap_or(0) as u128;
                if !text_ok(n * n, 8) {
                    return None;
                }
                Op::MText(d, m?)
            }
            54 => {
                let n = self.w.m(m?).map(|m| m.dimension()).unwrap_or(0) as u128;
                let p = *r.pick(&[0usize, 1, 2, 3, 5, 17, 40, 300]);
                if !text_ok(n * n, p as u128 + 8) {
                    return None;
                }
                Op::MTextP(d, m?, p)
            }
            55 => Op::MEntries(d, m?, nolen),
            56 => Op::Reread(self.pick(r, |s| matches!(s, Shadow::Buf(_) | Shadow::Bytes(_)))?),
            _ => {
                if r.chance(1, 3) {
                    Op::FreeNulls(r.below(5) as usize)
                } else {
                    Op::Reread(self.pick(r, |s| matches!(s, Shadow::Buf(_) | Shadow::Bytes(_)))?)
                }
            }
        })
    }
    fn source(&self, r: &mut Rng, comp: bool) -> Option<Src> {
        if r.chance(1, 12) {
            return Some(Src::Null(*r.pick(&[0usize, 1, 26, 42])));
        }
        let k = self.pick(r, |s| matches!(s, Shadow::Bytes(_)));
        match k {
            Some(k) if r.chance(2, 3) => Some(Src::Slot(k)),
            Some(k) => {
                // a damaged copy
                let Shadow::Bytes(b) = &self.w.s[k] else { return None };
                let mut b = b.clone();
                match r.below(3) {
                    0 => {
                        let l = b.len();
                        b.truncate(r.us(l));
                    }
                    1 => {
                        let l = b.len();
                        b[r.us(l)] ^= 1 << r.below(8);
                    }
                    _ => b.push(0),
                }
                Some(Src::Hex(b))
            }
            None => {
                if r.bool() {
                    return Some(Src::Hex((0..r.below(60)).map(|_| r.u64() as u8).collect()));
                }
                let n = r.range(1, 20);
                Some(Src::Hex(if comp {
                    crate::codec::write_compressed(false, n, 3, &[((0, 0), 1)])
                } else {
                    crate::codec::write_graph(false, n, &[(0, 0)])
                }))
            }
        }
    }
}
