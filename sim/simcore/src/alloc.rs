//! The allocator seam: counts and tags what the library allocates, detects double and
//! invalid frees, poisons freed memory, keeps it unreachable or hands it out again at once
//! (chosen per run), and can fail any single allocation.
use crate::sched::{self, kind, point};
use crate::{INLIB, OOM_IN, OP_ALLOCS, RT, TASK};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicU8, Ordering};

const HDR: usize = 32;
const LIVE: u32 = 0xA110_CA7E;
const DEAD: u32 = 0xDEAD_F4EE;
pub const POISON: u8 = 0xE5;
const MAXCLASS: usize = 256; // classes of 16 bytes: up to 4 KiB are reused at once

#[repr(C)]
struct Header {
    magic: u32,
    /// 0: untracked; otherwise the run that allocated it.
    epoch: u32,
    size: u64,
    next: *mut Header,
    offset: u64,
}

/// What happens to tracked memory when it is freed.
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u8)]
pub enum Reuse {
    Never = 0,
    Immediately = 1,
}

pub struct SimAlloc;
#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

static EPOCH: AtomicU32 = AtomicU32::new(0);
static MODE: AtomicU8 = AtomicU8::new(0);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static TRACKED: AtomicU64 = AtomicU64::new(0);
pub static REUSED: AtomicU64 = AtomicU64::new(0);
pub static OOM_FIRED: AtomicU64 = AtomicU64::new(0);

struct Lists {
    lock: AtomicBool,
    inner: UnsafeCell<Inner>,
}
struct Inner {
    quarantine: *mut Header,
    classes: [*mut Header; MAXCLASS],
}
unsafe impl Sync for Lists {}
static LISTS: Lists = Lists {
    lock: AtomicBool::new(false),
    inner: UnsafeCell::new(Inner {
        quarantine: core::ptr::null_mut(),
        classes: [core::ptr::null_mut(); MAXCLASS],
    }),
};
fn with_lists<T>(f: impl FnOnce(&mut Inner) -> T) -> T {
    while LISTS.lock.swap(true, Ordering::Acquire) {
        core::hint::spin_loop();
    }
    let r = f(unsafe { &mut *LISTS.inner.get() });
    LISTS.lock.store(false, Ordering::Release);
    r
}

fn class_of(size: usize) -> usize {
    size.div_ceil(16)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let tracked = INLIB.get() > 0 && RT.get() == 0 && EPOCH.load(Ordering::Relaxed) != 0;
        if tracked {
            point(kind::ALLOC);
            OP_ALLOCS.set(OP_ALLOCS.get() + 1);
            let k = OOM_IN.get();
            if k >= 0 {
                // -2: it has failed
                OOM_IN.set(if k == 0 { -2 } else { k - 1 });
                if k == 0 {
                    OOM_FIRED.fetch_add(1, Ordering::Relaxed);
                    return core::ptr::null_mut();
                }
            }
        }
        let off = HDR.max(l.align());
        if tracked {
            TRACKED.fetch_add(1, Ordering::Relaxed);
            LIVE_BLOCKS.fetch_add(1, Ordering::Relaxed);
            LIVE_BYTES.fetch_add(l.size() as i64, Ordering::Relaxed);
            let c = class_of(l.size());
            if off == HDR && c < MAXCLASS && MODE.load(Ordering::Relaxed) == 1 {
                let h = with_lists(|i| {
                    let h = i.classes[c];
                    if !h.is_null() {
                        i.classes[c] = (*h).next;
                    }
                    h
                });
                if !h.is_null() {
                    REUSED.fetch_add(1, Ordering::Relaxed);
                    (*h).magic = LIVE;
                    (*h).epoch = EPOCH.load(Ordering::Relaxed);
                    (*h).size = l.size() as u64;
                    let p = (h as *mut u8).add(HDR);
                    sched::forget(p as usize, l.size());
                    return p;
                }
            }
        }
        let size = if tracked { class_of(l.size()).max(1) * 16 } else { l.size() };
        let Ok(full) = Layout::from_size_align(size + off, l.align().max(16)) else {
            return core::ptr::null_mut();
        };
        let base = System.alloc(full);
        if base.is_null() {
            return base;
        }
        let p = base.add(off);
        let h = p.sub(HDR) as *mut Header;
        (*h).magic = LIVE;
        (*h).epoch = if tracked { EPOCH.load(Ordering::Relaxed) } else { 0 };
        (*h).size = l.size() as u64;
        (*h).next = core::ptr::null_mut();
        (*h).offset = off as u64;
        sched::forget(p as usize, l.size());
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if TASK.get() >= 0 && RT.get() == 0 && INLIB.get() > 0 {
            point(kind::FREE);
        }
        let h = p.sub(HDR) as *mut Header;
        match (*h).magic {
            LIVE => {}
            DEAD => sched::fatal("double-free", "a block was freed twice"),
            _ => sched::fatal("invalid-free", "a block that was never allocated was freed"),
        }
        if (*h).size != l.size() as u64 {
            sched::fatal("invalid-free", "a block was freed with another size");
        }
        let off = (*h).offset as usize;
        (*h).magic = DEAD;
        let epoch = (*h).epoch;
        if epoch != 0 && epoch == EPOCH.load(Ordering::Relaxed) {
            LIVE_BLOCKS.fetch_sub(1, Ordering::Relaxed);
            LIVE_BYTES.fetch_sub(l.size() as i64, Ordering::Relaxed);
            if off == HDR {
                core::ptr::write_bytes(p, POISON, class_of(l.size()).max(1) * 16);
                let c = class_of(l.size());
                let reuse = MODE.load(Ordering::Relaxed) == 1 && c < MAXCLASS;
                with_lists(|i| {
                    let list = if reuse { &mut i.classes[c] } else { &mut i.quarantine };
                    (*h).next = *list;
                    *list = h;
                });
                return;
            }
        }
        let size = if epoch != 0 { class_of(l.size()).max(1) * 16 } else { l.size() };
        System.dealloc(p.sub(off), Layout::from_size_align_unchecked(size + off, l.align().max(16)));
    }
}

/// Starts tracking for a run.
pub fn begin(epoch: u32, reuse: Reuse) {
    LIVE_BLOCKS.store(0, Ordering::Relaxed);
    LIVE_BYTES.store(0, Ordering::Relaxed);
    MODE.store(reuse as u8, Ordering::Relaxed);
    EPOCH.store(epoch.max(1), Ordering::Relaxed);
}

pub struct Ended {
    pub live_blocks: i64,
    pub live_bytes: i64,
    pub written_after_free: u64,
}

/// Ends tracking: checks the poison of all freed memory and releases it.
pub fn end() -> Ended {
    EPOCH.store(0, Ordering::Relaxed);
    let mut bad = 0;
    let mut lists: Vec<*mut Header> = Vec::new();
    with_lists(|i| {
        lists.push(std::mem::replace(&mut i.quarantine, core::ptr::null_mut()));
    });
    for c in 0..MAXCLASS {
        let h = with_lists(|i| std::mem::replace(&mut i.classes[c], core::ptr::null_mut()));
        lists.push(h);
    }
    for mut h in lists {
        while !h.is_null() {
            unsafe {
                let next = (*h).next;
                let size = class_of((*h).size as usize).max(1) * 16;
                let p = (h as *mut u8).add(HDR);
                if (*h).magic != DEAD || std::slice::from_raw_parts(p, size).iter().any(|&b| b != POISON) {
                    bad += 1;
                }
                System.dealloc(h as *mut u8, Layout::from_size_align_unchecked(size + HDR, 16));
                h = next;
            }
        }
    }
    Ended {
        live_blocks: LIVE_BLOCKS.load(Ordering::Relaxed),
        live_bytes: LIVE_BYTES.load(Ordering::Relaxed),
        written_after_free: bad,
    }
}

/// Makes a failed allocation unwind instead of aborting the process.
pub fn install_oom_hook() {
    std::alloc::set_alloc_error_hook(|_| {
        std::panic::resume_unwind(Box::new(crate::Injected("out of memory")));
    });
}
