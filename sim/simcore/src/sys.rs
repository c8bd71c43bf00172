//! Raw system calls, bypassing the symbols the simulator overrides.
use core::arch::asm;
use std::sync::atomic::{AtomicU32, Ordering};

pub unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
pub fn write_all(fd: i32, mut buf: &[u8]) {
    while !buf.is_empty() {
        let n = unsafe { raw(1, fd as usize, buf.as_ptr() as usize, buf.len(), 0, 0, 0) };
        if n <= 0 {
            return;
        }
        buf = &buf[n as usize..];
    }
}
pub fn exit_now(code: i32) -> ! {
    unsafe { raw(231, code as usize, 0, 0, 0, 0, 0) };
    loop {}
}

/// A binary semaphore on a raw futex.
pub struct Slot(AtomicU32);
impl Slot {
    pub const fn new() -> Self {
        Slot(AtomicU32::new(0))
    }
    pub fn post(&self) {
        self.0.store(1, Ordering::Release);
        unsafe { raw(202, self.0.as_ptr() as usize, 129, 1, 0, 0, 0) };
    }
    pub fn wait(&self) {
        while self.0.swap(0, Ordering::Acquire) == 0 {
            unsafe { raw(202, self.0.as_ptr() as usize, 128, 0, 0, 0, 0) };
        }
    }
    pub fn reset(&self) {
        self.0.store(0, Ordering::Relaxed);
    }
}
