//! Global allocator of the simulator: blocks carry a header, fresh and freed memory has a fixed pattern, freed blocks are
//! held back for a while. Double frees and writes after free end the run; live blocks of the code under test are counted.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering};

pub struct Alloc;

const LIVE: u32 = 0x11fe_a11c;
const DEAD: u32 = 0xdead_f7ee;
const HDR: usize = 16;
const TAIL: usize = 16;
const Q: usize = 128;
const QMAX: usize = 1024;

#[repr(C)]
struct Hdr {
    size: u64,
    align: u16,
    user: u16,
    magic: u32,
}

struct State {
    q: [(usize, usize, usize); Q],
    qi: usize,
    live_blocks: i64,
    live_bytes: i64,
}
static mut ST: State = State { q: [(0, 0, 0); Q], qi: 0, live_blocks: 0, live_bytes: 0 };
static LOCK: AtomicBool = AtomicBool::new(false);

struct G;
impl G {
    fn new() -> G {
        while LOCK.swap(true, Ordering::Acquire) {
            std::hint::spin_loop();
        }
        G
    }
}
impl Drop for G {
    fn drop(&mut self) {
        LOCK.store(false, Ordering::Release);
    }
}

fn off(align: usize) -> usize {
    HDR.max(align)
}

#[cold]
fn bad(what: &'static str) {
    if crate::sched::is_sim_thread() {
        let _g = crate::sched::kenter();
        crate::sched::end(2, "heap", what);
    }
}

/// Blocks and bytes allocated by the code under test (not by the harness) and not freed yet.
#[inline(never)]
pub fn live_user() -> (i64, i64) {
    unsafe { (ST.live_blocks, ST.live_bytes) }
}

unsafe impl GlobalAlloc for Alloc {
    #[inline(never)]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let o = off(l.align());
        let base = System.alloc(Layout::from_size_align_unchecked(l.size() + o + TAIL, l.align().max(16)));
        if base.is_null() {
            return base;
        }
        let p = base.add(o);
        let user = crate::sched::in_sim();
        let h = p.sub(HDR) as *mut Hdr;
        (*h).size = l.size() as u64;
        (*h).align = l.align().min(4096) as u16;
        (*h).user = user as u16;
        (*h).magic = LIVE;
        std::ptr::write_bytes(p.add(l.size()), 0x7e, TAIL);
        if user {
            std::ptr::write_bytes(p, 0xa5, l.size().min(QMAX));
            let _g = G::new();
            ST.live_blocks += 1;
            ST.live_bytes += l.size() as i64;
        }
        p
    }
    #[inline(never)]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(HDR) as *mut Hdr;
        if (*h).magic == DEAD {
            bad("memory is freed twice");
            return;
        }
        if (*h).magic != LIVE {
            bad("memory is freed that was not allocated, or was overwritten before its start");
            return;
        }
        if (*h).size != l.size() as u64 {
            bad("memory is freed with another size than it was allocated with");
        }
        if std::slice::from_raw_parts(p.add(l.size()), TAIL).iter().any(|b| *b != 0x7e) {
            bad("memory is written past its end");
        }
        (*h).magic = DEAD;
        let o = off(l.align());
        let n = l.size();
        let user = (*h).user != 0;
        if !user {
            System.dealloc(p.sub(o), Layout::from_size_align_unchecked(n + o + TAIL, l.align().max(16)));
            return;
        }
        let k = n.min(QMAX);
        std::ptr::write_bytes(p, 0xdd, k);
        let old = {
            let _g = G::new();
            ST.live_blocks -= 1;
            ST.live_bytes -= n as i64;
            let i = ST.qi % Q;
            ST.qi += 1;
            std::mem::replace(&mut ST.q[i], (p as usize, n, l.align()))
        };
        if old.0 != 0 {
            let (q, n, a) = (old.0 as *mut u8, old.1, old.2);
            let k = n.min(QMAX);
            if std::slice::from_raw_parts(q, k).iter().any(|b| *b != 0xdd) || (*(q.sub(HDR) as *mut Hdr)).magic != DEAD {
                bad("memory is written after it was freed");
            }
            let o = off(a);
            System.dealloc(q.sub(o), Layout::from_size_align_unchecked(n + o + TAIL, a.max(16)));
        }
    }
}
