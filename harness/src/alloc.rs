//! Monitored global allocator: red zones around every block, layout check at
//! deallocation, poisoned fresh and freed memory, and reallocation that always
//! moves. Anomalies are recorded and polled by the engines.
#![cfg_attr(feature = "plain_alloc", allow(dead_code))]
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
    sync::atomic::{AtomicU64, Ordering::Relaxed},
};

pub static ERRORS: AtomicU64 = AtomicU64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static DEALLOCS: AtomicU64 = AtomicU64::new(0);
pub static ERR_KIND: AtomicU64 = AtomicU64::new(0);
pub static ERR_A: AtomicU64 = AtomicU64::new(0);
pub static ERR_B: AtomicU64 = AtomicU64::new(0);

const LIVE: u64 = 0x5a17_c0de_11fe_a110;
const DEAD: u64 = 0xdead_c0de_dead_f7ee;
const CANARY: u64 = 0xc0ff_ee00_ca9a_11e5;
const TAIL: usize = 16;

pub struct Mon;

thread_local! {
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

/// Blocks allocated less blocks freed by this thread. Other threads must not count, because the
/// watchdog allocates at any time.
pub fn live() -> i64 {
    BLOCKS.with(|b| b.get())
}

/// bytes allocated less bytes freed, and number of allocations, by this thread
pub fn held() -> (i64, u64) {
    (BYTES.with(|b| b.get()), CALLS.with(|b| b.get()))
}

fn blocks(n: i64, size: usize) {
    let _ = BLOCKS.try_with(|b| b.set(b.get() + n));
    let _ = BYTES.try_with(|b| b.set(b.get() + n * size as i64));
    let _ = CALLS.try_with(|b| b.set(b.get() + (n > 0) as u64));
}

fn err(kind: u64, a: u64, b: u64) {
    if ERRORS.fetch_add(1, Relaxed) == 0 {
        ERR_KIND.store(kind, Relaxed);
        ERR_A.store(a, Relaxed);
        ERR_B.store(b, Relaxed);
    }
}

pub fn take_error() -> Option<String> {
    let n = ERRORS.swap(0, Relaxed);
    if n == 0 {
        return None
    }
    let (a, b) = (ERR_A.load(Relaxed), ERR_B.load(Relaxed));
    Some(match ERR_KIND.load(Relaxed) {
        1 => format!("{n} heap anomalies, first: block deallocated twice (size {a})"),
        2 => format!("{n} heap anomalies, first: deallocation of memory that is not a block start"),
        3 => format!("{n} heap anomalies, first: deallocation with wrong size (was {a}, given {b})"),
        4 => format!("{n} heap anomalies, first: deallocation with wrong alignment ({a} vs {b})"),
        5 => format!("{n} heap anomalies, first: write past the end of a block of size {a}"),
        _ => format!("{n} heap anomalies, first: write before the start of a block of size {a}"),
    })
}

fn pad(l: &Layout) -> usize {
    l.align().max(32)
}

unsafe fn get(layout: Layout, zero: bool) -> *mut u8 {
    let p = pad(&layout);
    let Ok(full) = Layout::from_size_align(p + layout.size() + TAIL, p) else {
        return std::ptr::null_mut()
    };
    let base = unsafe { System.alloc(full) };
    if base.is_null() {
        return base
    }
    ALLOCS.fetch_add(1, Relaxed);
    blocks(1, layout.size());
    unsafe {
        let user = base.add(p);
        let h = user.sub(32) as *mut u64;
        h.write(LIVE);
        h.add(1).write(layout.size() as u64);
        h.add(2).write(layout.align() as u64);
        h.add(3).write(CANARY);
        // the poison of large blocks is limited to keep the cost reasonable
        if zero {
            std::ptr::write_bytes(user, 0, layout.size());
        } else {
            std::ptr::write_bytes(user, 0xa5, layout.size().min(1 << 16));
        }
        let t = user.add(layout.size()) as *mut u64;
        t.write_unaligned(CANARY);
        t.add(1).write_unaligned(!CANARY);
        user
    }
}

#[cfg(not(feature = "plain_alloc"))]
unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        unsafe { get(layout, false) }
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        unsafe { get(layout, true) }
    }

    unsafe fn dealloc(&self, user: *mut u8, layout: Layout) {
        unsafe {
            if (user as usize) & 7 != 0 {
                err(2, 0, 0);
                return
            }
            let h = user.sub(32) as *mut u64;
            let (magic, size, align, can) =
                (h.read(), h.add(1).read(), h.add(2).read(), h.add(3).read());
            if magic != LIVE {
                err(if magic == DEAD { 1 } else { 2 }, size, 0);
                return
            }
            if can != CANARY {
                err(6, size, 0);
            }
            let t = user.add(size as usize) as *mut u64;
            if t.read_unaligned() != CANARY || t.add(1).read_unaligned() != !CANARY {
                err(5, size, 0);
            }
            if size != layout.size() as u64 {
                err(3, size, layout.size() as u64);
            }
            if align != layout.align() as u64 {
                err(4, align, layout.align() as u64);
            }
            DEALLOCS.fetch_add(1, Relaxed);
            blocks(-1, size as usize);
            std::ptr::write_bytes(user, 0xde, (size as usize).min(1 << 16));
            h.write(DEAD);
            let p = (align as usize).max(32);
            let full = Layout::from_size_align_unchecked(p + size as usize + TAIL, p);
            System.dealloc(user.sub(p), full);
        }
    }
}

#[cfg(not(feature = "plain_alloc"))]
#[global_allocator]
static GLOBAL: Mon = Mon;
