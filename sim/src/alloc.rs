//! The allocator seam. Every allocation made by library code inside a simulated node is a point
//! where the simulator may take the processor away, so interleavings go down to the inside of
//! single library calls. It also keeps the count of live bytes.

use crate::sched;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

pub struct SimAlloc;

thread_local! {
    /// > 0 while library code (as opposed to harness code) runs on this thread.
    pub static IN_SUT: Cell<u32> = const { Cell::new(0) };
}

pub static SUT_ALLOCS: AtomicU64 = AtomicU64::new(0);
/// Overwrite fresh and freed memory, so that code that depends on its old contents is exposed.
pub static POISON: AtomicU64 = AtomicU64::new(0);

/// Bytes that library code running in a node has allocated and nobody has freed, per node.
pub static LIVE: [AtomicI64; 64] = [const { AtomicI64::new(0) }; 64];

pub fn live(node: usize) -> i64 {
    LIVE[(node + 1).min(63)].load(Ordering::Relaxed)
}

/// In front of every block is a word that says which node's library code allocated it (0: none).
fn room(l: Layout) -> (usize, Layout) {
    let off = l.align().max(16);
    (off, Layout::from_size_align(l.size() + off, l.align().max(8)).unwrap_or(l))
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let was = Restore(IN_SUT.with(|c| c.replace(0)));
        let mut tag = 0;
        if was.0 > 0 {
            SUT_ALLOCS.fetch_add(1, Ordering::Relaxed);
            sched::alloc_point();
            if sched::in_node() {
                tag = (sched::node_id() + 1).min(63);
            }
        }
        let (off, full) = room(l);
        let p = System.alloc(full);
        if p.is_null() {
            return p;
        }
        LIVE[tag].fetch_add(l.size() as i64, Ordering::Relaxed);
        let p = p.add(off);
        (p.sub(8) as *mut u64).write(tag as u64);
        let poison = POISON.load(Ordering::Relaxed);
        if poison != 0 {
            std::ptr::write_bytes(p, poison as u8, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _was = Restore(IN_SUT.with(|c| c.replace(0)));
        let tag = (p.sub(8) as *mut u64).read() as usize & 63;
        LIVE[tag].fetch_sub(l.size() as i64, Ordering::Relaxed);
        if POISON.load(Ordering::Relaxed) != 0 {
            std::ptr::write_bytes(p, 0xDD, l.size());
        }
        let (off, full) = room(l);
        System.dealloc(p.sub(off), full)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let was = Restore(IN_SUT.with(|c| c.replace(0)));
        if was.0 > 0 {
            SUT_ALLOCS.fetch_add(1, Ordering::Relaxed);
            sched::alloc_point();
        }
        let tag = (p.sub(8) as *mut u64).read() as usize & 63;
        let (off, full) = room(l);
        let q = System.realloc(p.sub(off), full, new + off);
        if q.is_null() {
            return q;
        }
        LIVE[tag].fetch_add(new as i64 - l.size() as i64, Ordering::Relaxed);
        q.add(off)
    }
}

struct Restore(u32);
impl Drop for Restore {
    fn drop(&mut self) {
        IN_SUT.with(|c| c.set(self.0));
    }
}

/// Run library code: allocations in it are scheduling points.
pub fn sut<T>(f: impl FnOnce() -> T) -> T {
    let _r = Restore(IN_SUT.with(|c| c.replace(1)));
    f()
}

/// Run harness code (a callback, or anything that touches simulator state).
pub fn host<T>(f: impl FnOnce() -> T) -> T {
    let _r = Restore(IN_SUT.with(|c| c.replace(0)));
    f()
}
