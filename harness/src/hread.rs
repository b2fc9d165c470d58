//! Reading values behind C handles through the C interface only. What a handle points to is the
//! library's own business.
use graphrox_c as capi;
use std::ffi::CStr;

/// # Safety
/// `p` points to `l` elements, or is null.
pub unsafe fn slice<'a, T>(p: *const T, l: usize) -> &'a [T] {
    if p.is_null() || l == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p, l)
    }
}
pub unsafe fn take_text(p: *mut std::ffi::c_char) -> Option<String> {
    if p.is_null() {
        return None;
    }
    let s = CStr::from_ptr(p).to_string_lossy().into_owned();
    capi::free_gphrx_string_buffer(p);
    Some(s)
}
pub unsafe fn edges(h: capi::GphrxGraph) -> Vec<(u64, u64)> {
    let mut l = 0;
    let q = capi::gphrx_get_edge_list(h, &mut l);
    let mut v: Vec<_> = slice(q, l).iter().map(|e| (e.from_vertex, e.to_vertex)).collect();
    capi::free_gphrx_edge_list(q, l);
    v.sort_unstable();
    v
}
pub unsafe fn ins(h: capi::GphrxGraph, v: u64) -> Vec<u64> {
    let mut l = 0;
    let q = capi::gphrx_get_vertex_in_edges_list(h, v, &mut l);
    let mut o: Vec<_> = slice(q, l).iter().map(|e| e.vertex_id).collect();
    capi::free_gphrx_vertex_list(q, l);
    o.sort_unstable();
    o
}
pub unsafe fn outs(h: capi::GphrxGraph, v: u64) -> Vec<u64> {
    let mut l = 0;
    let q = capi::gphrx_get_vertex_out_edges_list(h, v, &mut l);
    let mut o: Vec<_> = slice(q, l).iter().map(|e| e.vertex_id).collect();
    capi::free_gphrx_vertex_list(q, l);
    o.sort_unstable();
    o
}
pub unsafe fn bytes(h: capi::GphrxGraph) -> Vec<u8> {
    let mut l = 0;
    let q = capi::gphrx_to_bytes(h, &mut l);
    let o = slice(q, l).to_vec();
    capi::free_gphrx_bytes_buffer(q, l);
    o
}
pub unsafe fn cbytes(h: capi::GphrxCompressedGraph) -> Vec<u8> {
    let mut l = 0;
    let q = capi::gphrx_compressed_graph_to_bytes(h, &mut l);
    let o = slice(q, l).to_vec();
    capi::free_gphrx_bytes_buffer(q, l);
    o
}
/// (column, row, bits of the value), sorted.
pub unsafe fn cells(h: capi::GphrxCsrSquareMatrix) -> Vec<(u64, u64, u64)> {
    let mut l = 0;
    let q = capi::gphrx_matrix_get_entry_list(h, &mut l);
    let mut o: Vec<_> = slice(q, l).iter().map(|e| (e.col, e.row, e.entry.to_bits())).collect();
    capi::free_gphrx_matrix_entry_list(q, l);
    o.sort_unstable();
    o
}
/// The content of a compressed image, in a canonical record order.
pub fn blocks_of(b: &[u8]) -> Vec<(u64, u64, u64)> {
    let mut body: Vec<_> = b
        .get(42..)
        .unwrap_or(&[])
        .chunks_exact(24)
        .map(|x| (crate::codec::be64(x, 0), crate::codec::be64(x, 8), crate::codec::be64(x, 16)))
        .collect();
    body.sort_unstable();
    body
}
/// A C graph with the content of the image, if the C interface accepts it.
pub unsafe fn load(b: &[u8]) -> Option<capi::GphrxGraph> {
    let mut e = 99u8;
    let h = capi::gphrx_from_bytes(b.as_ptr(), b.len(), &mut e as *mut u8 as *mut _);
    (!h.graph_ptr.is_null()).then_some(h)
}
pub unsafe fn cload(b: &[u8]) -> Option<capi::GphrxCompressedGraph> {
    let mut e = 99u8;
    let h = capi::gphrx_compressed_graph_from_bytes(b.as_ptr(), b.len(), &mut e as *mut u8 as *mut _);
    (!h.graph_ptr.is_null()).then_some(h)
}
