//! An allocator that knows which node it allocates for.
//!
//! While a node's task is polled what is allocated is charged to that node, unless harness code
//! takes over in between (`as_harness`). Every block carries its owner, so it is credited back
//! to the right one wherever it is freed. A run has a thread of its own, and so its own accounts.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

const OWNERS: usize = 64;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static OWNER: Cell<u32> = const { Cell::new(0) };
    static USED: [Cell<i64>; OWNERS] = const { [const { Cell::new(0) }; OWNERS] };
}

pub struct Counting;

fn head(l: &Layout) -> usize {
    l.align().max(16)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = head(&l);
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + h, h));
        if p.is_null() {
            return p;
        }
        let who = OWNER.get();
        *p.cast::<u32>() = who;
        if who != 0 {
            charge(who, l.size() as i64);
        }
        p.add(h)
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let h = head(&l);
        let p = q.sub(h);
        let who = *p.cast::<u32>();
        if who != 0 {
            charge(who, -(l.size() as i64));
        }
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + h, h));
    }
    unsafe fn realloc(&self, q: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let h = head(&l);
        let p = q.sub(h);
        let who = *p.cast::<u32>();
        let p = System.realloc(p, Layout::from_size_align_unchecked(l.size() + h, h), new + h);
        if p.is_null() {
            return p;
        }
        if who != 0 {
            charge(who, new as i64 - l.size() as i64);
        }
        p.add(h)
    }
}

fn charge(who: u32, d: i64) {
    let _ = USED.try_with(|u| {
        let c = &u[who as usize % OWNERS];
        c.set(c.get() + d);
    });
}

/// Keep accounts in this thread from now on.
pub fn start() {
    ON.set(true);
}
pub fn on() -> bool {
    ON.get()
}
pub fn used(owner: u32) -> i64 {
    USED.with(|u| u[owner as usize % OWNERS].get())
}

pub struct Guard(u32);
impl Drop for Guard {
    fn drop(&mut self) {
        OWNER.set(self.0);
    }
}

/// What is allocated until the guard is dropped belongs to `owner` (0: the harness).
pub fn owned_by(owner: u32) -> Guard {
    Guard(OWNER.replace(if ON.get() { owner } else { 0 }))
}
pub fn as_harness() -> Guard {
    Guard(OWNER.replace(0))
}
