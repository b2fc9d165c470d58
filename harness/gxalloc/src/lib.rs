//! A monitoring global allocator.
//!
//! Every block gets a header (magic, size, alignment, serial number) and a trailing canary.
//! On release the header, the layout given by the releaser and the canary are checked, the
//! block is filled with poison and kept in quarantine; when it leaves quarantine the poison is
//! checked again. A breach is printed as `GXALLOC-VIOLATION: ...` and aborts the process.
//! Live/peak/total counters make leaks and memory bounds observable. Requests larger than
//! `CAP` fail (as on a machine without that much memory), deterministically; smaller ones can
//! be made to fail with `refuse_from`.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::*};

pub struct GxAlloc;

pub const CAP: usize = 1 << 30;

static LIVE_BYTES: AtomicUsize = AtomicUsize::new(0);
static LIVE_BLOCKS: AtomicUsize = AtomicUsize::new(0);
static PEAK_BYTES: AtomicUsize = AtomicUsize::new(0);
static TOTAL_BLOCKS: AtomicU64 = AtomicU64::new(0);
static REFUSED: AtomicU64 = AtomicU64::new(0);

// Requests of this thread from this size on are refused: memory running out, at will.
std::thread_local! { static REFUSE_FROM: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }

/// Refuse this thread's requests for `size` bytes or more (usize::MAX: none).
pub fn refuse_from(size: usize) {
    REFUSE_FROM.with(|c| c.set(size));
}

const LIVE: u64 = 0x6c69_7665_9e37_79b9;
const FREED: u64 = 0x6672_6565_d1b5_4a32;
const CANARY: u64 = 0xc0a7_1e55_ab1e_f00d;
const POISON: u8 = 0xdf;
const HDR: usize = 32;

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    align: usize,
    serial: u64,
}

const Q: usize = 1024;
const QBYTES: usize = 8 << 20;
struct Quarantine {
    ring: [(*mut u8, usize, usize); Q],
    head: usize,
    len: usize,
    bytes: usize,
}
struct Cell(UnsafeCell<Quarantine>);
unsafe impl Sync for Cell {}
static LOCK: AtomicBool = AtomicBool::new(false);
static QUAR: Cell = Cell(UnsafeCell::new(Quarantine {
    ring: [(std::ptr::null_mut(), 0, 0); Q],
    head: 0,
    len: 0,
    bytes: 0,
}));

fn die(what: &str, a: usize, b: usize) -> ! {
    // No allocation here.
    use std::io::Write;
    let mut buf = [0u8; 200];
    let n = {
        let mut c = std::io::Cursor::new(&mut buf[..]);
        let _ = write!(c, "GXALLOC-VIOLATION: {} ({} / {})\n", what, a, b);
        c.position() as usize
    };
    let _ = std::io::stderr().write_all(&buf[..n]);
    std::process::abort();
}

fn full_layout(size: usize, align: usize) -> Option<(Layout, usize)> {
    let front = HDR.max(align);
    let total = front.checked_add(size)?.checked_add(8)?;
    Layout::from_size_align(total, align.max(16)).ok().map(|l| (l, front))
}

unsafe fn really_free(user: *mut u8, size: usize, align: usize) {
    // poison must be intact
    let s = std::slice::from_raw_parts(user, size);
    // check in words for speed on big blocks
    let (pre, mid, post) = s.align_to::<u64>();
    let w = u64::from_ne_bytes([POISON; 8]);
    if pre.iter().chain(post).any(|b| *b != POISON) || mid.iter().any(|x| *x != w) {
        die("released memory was written to", size, align);
    }
    let (l, front) = full_layout(size, align).unwrap();
    System.dealloc(user.sub(front), l);
}

unsafe impl GlobalAlloc for GxAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let (size, align) = (layout.size(), layout.align());
        if size > CAP || size >= REFUSE_FROM.with(|c| c.get()) {
            REFUSED.fetch_add(1, Relaxed);
            return std::ptr::null_mut();
        }
        let Some((l, front)) = full_layout(size, align) else {
            return std::ptr::null_mut();
        };
        let base = System.alloc(l);
        if base.is_null() {
            return base;
        }
        let user = base.add(front);
        let serial = TOTAL_BLOCKS.fetch_add(1, Relaxed);
        (user.sub(HDR) as *mut Header).write_unaligned(Header { magic: LIVE, size, align, serial });
        (user.add(size) as *mut u64).write_unaligned(CANARY ^ size as u64);
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        let live = LIVE_BYTES.fetch_add(size, Relaxed) + size;
        PEAK_BYTES.fetch_max(live, Relaxed);
        user
    }

    unsafe fn dealloc(&self, user: *mut u8, layout: Layout) {
        let (size, align) = (layout.size(), layout.align());
        let h = user.sub(HDR) as *mut Header;
        let hdr = h.read_unaligned();
        if hdr.magic == FREED {
            die("block released twice", size, align);
        }
        if hdr.magic != LIVE {
            die("release of something that is not a live block, or its header was overwritten", size, align);
        }
        if hdr.size != size {
            die("block released with the wrong size", hdr.size, size);
        }
        if hdr.align != align {
            die("block released with the wrong alignment", hdr.align, align);
        }
        if (user.add(size) as *mut u64).read_unaligned() != CANARY ^ size as u64 {
            die("write past the end of a block", size, align);
        }
        (*h).magic = FREED;
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        LIVE_BYTES.fetch_sub(size, Relaxed);
        std::ptr::write_bytes(user, POISON, size);
        if size > QBYTES / 4 {
            really_free(user, size, align);
            return;
        }
        while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let q = &mut *QUAR.0.get();
        while q.len == Q || (q.len > 0 && q.bytes + size > QBYTES) {
            let (p, s, a) = q.ring[q.head];
            q.head = (q.head + 1) % Q;
            q.len -= 1;
            q.bytes -= s;
            really_free(p, s, a);
        }
        let at = (q.head + q.len) % Q;
        q.ring[at] = (user, size, align);
        q.len += 1;
        q.bytes += size;
        LOCK.store(false, Release);
    }
}

pub fn live_bytes() -> usize { LIVE_BYTES.load(SeqCst) }
pub fn live_blocks() -> usize { LIVE_BLOCKS.load(SeqCst) }
pub fn total_blocks() -> u64 { TOTAL_BLOCKS.load(SeqCst) }
pub fn refused() -> u64 { REFUSED.load(SeqCst) }
pub fn peak_bytes() -> usize { PEAK_BYTES.load(SeqCst) }
/// Restart peak tracking from the present live volume, which is returned.
pub fn reset_peak() -> usize {
    let l = live_bytes();
    PEAK_BYTES.store(l, SeqCst);
    l
}
