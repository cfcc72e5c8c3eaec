//! The allocator of the harness: blocks start out as garbage, are overwritten when they are given
//! back, and have to be given back as they were taken, with nothing written around them.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub struct Guard;

#[global_allocator]
static GUARD: Guard = Guard;

const TAKEN: u64 = 0x7461_6b65_6e5f_6f6e;
const GIVEN: u64 = 0x6769_7665_6e5f_6261;
const FRESH: u8 = 0xcd;
const STALE: u8 = 0xdd;
const EDGE: u8 = 0xcb;
/// Bytes behind a block that have to stay as they are
const TAIL: usize = 32;
/// Longer blocks are overwritten at both ends only
const LONG: usize = 1 << 16;

static BYTES: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);

thread_local! {
    static MINE: Cell<i64> = const { Cell::new(0) };
}

#[repr(C)]
struct Head {
    size: u64,
    align: u64,
    edge: [u8; 8],
    state: u64,
}

const HEAD: usize = std::mem::size_of::<Head>();

fn front(align: usize) -> usize {
    HEAD.max(align)
}

fn around(layout: Layout) -> Layout {
    let size = front(layout.align()) + layout.size() + TAIL;
    Layout::from_size_align(size, layout.align().max(16)).unwrap_or_else(|_| fail("a block is too large"))
}

/// Must not allocate
fn fail(what: &str) -> ! {
    let mut text = [0u8; 160];
    let mut n = 0;
    for b in b"memory: ".iter().chain(what.as_bytes()).chain(b"\n") {
        text[n] = *b;
        n += 1;
    }
    unsafe {
        libc::write(2, text.as_ptr() as *const _, n);
    }
    std::process::abort()
}

unsafe fn fill(p: *mut u8, size: usize, with: u8) {
    if size <= LONG {
        p.write_bytes(with, size);
    } else {
        p.write_bytes(with, LONG / 2);
        p.add(size - LONG / 2).write_bytes(with, LONG / 2);
    }
}

fn count(size: i64, blocks: i64) {
    BYTES.fetch_add(size, Relaxed);
    BLOCKS.fetch_add(blocks, Relaxed);
    let _ = MINE.try_with(|m| m.set(m.get() + size));
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let p = System.alloc(around(layout));
        if p.is_null() {
            return p;
        }
        let user = p.add(front(layout.align()));
        (user.sub(HEAD) as *mut Head).write(Head {
            size: layout.size() as u64,
            align: layout.align() as u64,
            edge: [EDGE; 8],
            state: TAKEN,
        });
        fill(user, layout.size(), FRESH);
        user.add(layout.size()).write_bytes(EDGE, TAIL);
        count(layout.size() as i64, 1);
        user
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let p = self.alloc(layout);
        if !p.is_null() {
            p.write_bytes(0, layout.size());
        }
        p
    }

    unsafe fn dealloc(&self, user: *mut u8, layout: Layout) {
        let head = user.sub(HEAD) as *mut Head;
        match (*head).state {
            TAKEN => {}
            GIVEN => fail("a block is given back twice"),
            _ => fail("something is given back that is no block, or was written in front of"),
        }
        if (*head).edge != [EDGE; 8] {
            fail("something was written in front of a block");
        }
        if (*head).size != layout.size() as u64 || (*head).align != layout.align() as u64 {
            fail("a block is given back with another size or alignment");
        }
        for k in 0..TAIL {
            if *user.add(layout.size() + k) != EDGE {
                fail("something was written behind a block");
            }
        }
        (*head).state = GIVEN;
        fill(user, layout.size(), STALE);
        count(-(layout.size() as i64), -1);
        System.dealloc(user.sub(front(layout.align())), around(layout));
    }
}

/// Bytes and blocks that are in use
pub fn in_use() -> (i64, i64) {
    (BYTES.load(Relaxed), BLOCKS.load(Relaxed))
}

/// Bytes taken less bytes given back on this thread
pub fn mine() -> i64 {
    MINE.with(|m| m.get())
}
