//! Stackful coroutines (x86_64 System V): every simulated node runs real, blocking library code on its
//! own stack, and only the simulator decides which one continues.

use std::arch::naked_asm;

const STACK: usize = 256 * 1024;

pub struct Stack {
    base: *mut u8,
}

impl Stack {
    pub fn new() -> Stack {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                STACK + 4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED, "mmap of a coroutine stack failed");
            libc::mprotect(p, 4096, libc::PROT_NONE);
            Stack { base: p as *mut u8 }
        }
    }
    fn top(&self) -> *mut u8 {
        unsafe { self.base.add(STACK + 4096) }
    }
    /// Prepares the stack so that switching to the returned pointer calls `entry`.
    pub fn prepare(&self, entry: extern "C" fn() -> !) -> *mut u8 {
        unsafe {
            let mut sp = self.top() as *mut u64;
            sp = sp.sub(1); // keeps rsp % 16 == 8 at function entry
            *sp = 0;
            sp = sp.sub(1);
            *sp = entry as usize as u64;
            for _ in 0..6 {
                sp = sp.sub(1);
                *sp = 0;
            }
            sp as *mut u8
        }
    }
}

/// Saves the current context in `*save` and continues at `to`.
#[unsafe(naked)]
pub unsafe extern "C" fn switch(save: *mut *mut u8, to: *mut u8) {
    naked_asm!(
        "push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
        "mov [rdi], rsp",
        "mov rsp, rsi",
        "pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp",
        "ret",
    )
}
