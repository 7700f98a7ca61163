//! Global allocator that counts live bytes, enforces a cap, and (when asked to)
//! perturbs thread schedules by yielding at pseudo-random allocation points.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Counting;

pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
/// 0 = off; otherwise yield about once every N allocations
pub static YIELD_EVERY: AtomicU64 = AtomicU64::new(0);
pub static YIELD_SALT: AtomicU64 = AtomicU64::new(0);
/// Order-sensitive digest of which thread allocated, to tell schedules apart
pub static SCHEDULE: AtomicU64 = AtomicU64::new(0);
pub static YIELDS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0) };
}
static NEXT_THREAD: AtomicU64 = AtomicU64::new(1);

pub const MEMORY_EXIT: i32 = 77;

fn grow(n: usize) {
    let live = LIVE.fetch_add(n, Relaxed) + n;
    if live > PEAK.load(Relaxed) {
        PEAK.fetch_max(live, Relaxed);
    }
    if live > CAP.load(Relaxed) {
        unsafe {
            let msg = b"vmon: memory cap exceeded\n";
            libc::write(2, msg.as_ptr() as *const _, msg.len());
            libc::_exit(MEMORY_EXIT)
        }
    }
    let every = YIELD_EVERY.load(Relaxed);
    if every != 0 {
        perturb(every)
    }
}

#[inline(never)]
fn perturb(every: u64) {
    let _ = STATE.try_with(|state| {
        let mut s = state.get();
        if s == 0 {
            s = crate::rng::mix(NEXT_THREAD.fetch_add(1, Relaxed)) | 1
        }
        let id = s >> 48;
        s = (s & !0xffff_ffff_ffff) | ((s.wrapping_mul(0x5851_F42D_4C95_7F2D).wrapping_add(0x1405_7B7E_F767_814F)) & 0xffff_ffff_ffff);
        state.set(s);
        let d = SCHEDULE.load(Relaxed);
        SCHEDULE.store(d.rotate_left(5).wrapping_mul(0x100_0000_01b3) ^ id, Relaxed);
        let r = crate::rng::mix(s ^ YIELD_SALT.load(Relaxed));
        if r % every == 0 {
            YIELDS.fetch_add(1, Relaxed);
            unsafe {
                if (r >> 32) % 16 == 0 {
                    let ts = libc::timespec { tv_sec: 0, tv_nsec: ((r >> 40) % 200_000) as _ };
                    libc::nanosleep(&ts, std::ptr::null_mut());
                } else {
                    libc::sched_yield();
                }
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            grow(n - l.size())
        } else {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}
