pub use graphrox_c as capi;

#[global_allocator]
static A: gxalloc::GxAlloc = gxalloc::GxAlloc;

#[no_mangle]
pub extern "C" fn gxmon_live_blocks() -> usize { gxalloc::live_blocks() }
#[no_mangle]
pub extern "C" fn gxmon_live_bytes() -> usize { gxalloc::live_bytes() }
#[no_mangle]
pub extern "C" fn gxmon_total_blocks() -> u64 { gxalloc::total_blocks() }
#[no_mangle]
pub extern "C" fn gxmon_refuse_from(size: usize) { gxalloc::refuse_from(size) }
#[no_mangle]
pub extern "C" fn gxmon_refused() -> u64 { gxalloc::refused() }

// The interpreter's own memory: its allocators are wrapped once, and then refuse large requests.
mod python {
    use std::ffi::c_void;
    use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct Allocator {
        ctx: *mut c_void,
        malloc: Option<unsafe extern "C" fn(*mut c_void, usize) -> *mut c_void>,
        calloc: Option<unsafe extern "C" fn(*mut c_void, usize, usize) -> *mut c_void>,
        realloc: Option<unsafe extern "C" fn(*mut c_void, *mut c_void, usize) -> *mut c_void>,
        free: Option<unsafe extern "C" fn(*mut c_void, *mut c_void)>,
    }

    static FROM: AtomicUsize = AtomicUsize::new(usize::MAX);
    static REFUSED: AtomicU64 = AtomicU64::new(0);

    fn refused(size: usize) -> bool {
        let no = size >= FROM.load(Relaxed);
        if no {
            REFUSED.fetch_add(1, Relaxed);
        }
        no
    }
    unsafe fn orig(ctx: *mut c_void) -> Allocator {
        *(ctx as *const Allocator)
    }
    unsafe extern "C" fn malloc(ctx: *mut c_void, n: usize) -> *mut c_void {
        let o = orig(ctx);
        if refused(n) { std::ptr::null_mut() } else { o.malloc.unwrap()(o.ctx, n) }
    }
    unsafe extern "C" fn calloc(ctx: *mut c_void, n: usize, size: usize) -> *mut c_void {
        let o = orig(ctx);
        if refused(n.saturating_mul(size)) { std::ptr::null_mut() } else { o.calloc.unwrap()(o.ctx, n, size) }
    }
    unsafe extern "C" fn realloc(ctx: *mut c_void, p: *mut c_void, n: usize) -> *mut c_void {
        let o = orig(ctx);
        if refused(n) { std::ptr::null_mut() } else { o.realloc.unwrap()(o.ctx, p, n) }
    }
    unsafe extern "C" fn free(ctx: *mut c_void, p: *mut c_void) {
        let o = orig(ctx);
        o.free.unwrap()(o.ctx, p)
    }

    /// `get` and `set` are PyMem_GetAllocator and PyMem_SetAllocator.
    #[no_mangle]
    pub unsafe extern "C" fn gxmon_py_hook(get: extern "C" fn(i32, *mut Allocator), set: extern "C" fn(i32, *mut Allocator)) {
        for domain in 1..3 {
            let mut o = std::mem::MaybeUninit::<Allocator>::zeroed().assume_init();
            get(domain, &mut o);
            let kept = libc_alloc(std::mem::size_of::<Allocator>()) as *mut Allocator;
            *kept = o;
            let mut new = Allocator { ctx: kept as *mut c_void, malloc: Some(malloc), calloc: Some(calloc), realloc: Some(realloc), free: Some(free) };
            set(domain, &mut new);
        }
    }
    extern "C" {
        #[link_name = "malloc"]
        fn libc_alloc(n: usize) -> *mut c_void;
    }
    #[no_mangle]
    pub extern "C" fn gxmon_py_refuse_from(size: usize) { FROM.store(size, Relaxed) }
    #[no_mangle]
    pub extern "C" fn gxmon_py_refused() -> u64 { REFUSED.load(Relaxed) }
}
