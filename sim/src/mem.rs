//! Memory accounting: which simulated node's library code holds how much.
//!
//! Allocations made while library code runs on behalf of a node are tagged with the node; what the
//! harness allocates meanwhile (history, simulated kernel, results it keeps) is not.

use std::alloc::{GlobalAlloc, Layout, System};

pub const MAX: usize = 128;

#[derive(Clone, Copy)]
pub struct Use {
    pub live: i64,
    pub peak: i64,
}
static mut USE: [Use; MAX] = [Use { live: 0, peak: 0 }; MAX];
static mut EPOCH: u32 = 0;
/// Whether library code is running.
static mut LIB: bool = false;

struct Alloc;
#[global_allocator]
static ALLOC: Alloc = Alloc;

/// In front of each block: the run and the node it belongs to.
#[repr(C)]
struct Tag {
    epoch: u32,
    owner: u32,
}
fn head(l: &Layout) -> usize {
    l.align().max(16)
}
fn whole(l: &Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size().saturating_add(head(l)), head(l)) }
}
unsafe fn charge(t: &Tag, n: i64) {
    if t.owner != 0 && t.epoch == EPOCH {
        let u = &mut *(&raw mut USE[t.owner as usize - 1]);
        u.live += n;
        u.peak = u.peak.max(u.live);
    }
}
unsafe fn owner() -> u32 {
    if !LIB {
        return 0;
    }
    match crate::kernel::in_sim() {
        Some(k) => match k.cur {
            Some(t) if t < MAX => t as u32 + 1,
            _ => 0,
        },
        None => 0,
    }
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(whole(&l));
        if p.is_null() {
            return p;
        }
        let p = p.add(head(&l));
        let t = p.sub(8) as *mut Tag;
        *t = Tag { epoch: EPOCH, owner: owner() };
        charge(&*t, l.size() as i64);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        charge(&*(p.sub(8) as *const Tag), -(l.size() as i64));
        System.dealloc(p.sub(head(&l)), whole(&l));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p.sub(head(&l)), whole(&l), n.saturating_add(head(&l)));
        if q.is_null() {
            return q;
        }
        let q = q.add(head(&l));
        charge(&*(q.sub(8) as *const Tag), n as i64 - l.size() as i64);
        q
    }
}

/// Starts a new run.
pub fn reset() {
    unsafe {
        EPOCH = EPOCH.wrapping_add(1);
        USE = [Use { live: 0, peak: 0 }; MAX];
        LIB = false;
    }
}
/// Returns the previous value.
pub fn set(lib: bool) -> bool {
    unsafe { std::mem::replace(&mut *(&raw mut LIB), lib) }
}
pub struct Guard(bool);
impl Drop for Guard {
    fn drop(&mut self) {
        set(self.0);
    }
}
/// The harness runs until this is dropped.
pub fn off() -> Guard {
    Guard(set(false))
}
/// Runs library code.
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    let _g = Guard(set(true));
    f()
}
/// What a node's library code holds now, and the most it held since the last time this was asked.
pub fn take(task: usize) -> Use {
    if task >= MAX {
        return Use { live: 0, peak: 0 };
    }
    unsafe {
        let u = &mut *(&raw mut USE[task]);
        let r = *u;
        u.peak = u.live;
        r
    }
}
