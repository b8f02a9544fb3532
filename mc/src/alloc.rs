//! Counting, layout-checking global allocator.
//!
//! Every block carries a header with the layout it was requested with and a flag telling whether it
//! was requested while library code was running (see `lib`).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

const MAGIC_LIVE: u64 = 0x55AA_17E0_A110_C8ED;
const MAGIC_DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;
const CANARY: u64 = 0xC0DE_CAFE_1234_5678;
const HDR: usize = 32;

#[repr(C)]
struct Header {
    magic: u64,
    size: u64,
    align: u64,
    lib: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum HeapError {
    None,
    LayoutMismatch { size: usize, align: usize, freed_size: usize, freed_align: usize },
    DoubleOrInvalidFree,
    Overrun { size: usize },
}

const QUARANTINE: usize = 64;

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static LIB_LIVE: Cell<isize> = const { Cell::new(0) };
    static LIB_BLOCKS: Cell<isize> = const { Cell::new(0) };
    static LIB_ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIB_PEAK: Cell<isize> = const { Cell::new(0) };
    static LIMIT: Cell<isize> = const { Cell::new(isize::MAX) };
    static ERROR: Cell<HeapError> = const { Cell::new(HeapError::None) };
    static POISON: Cell<bool> = const { Cell::new(false) };
    static RING: UnsafeCell<([usize; QUARANTINE], usize)> = const { UnsafeCell::new(([0; QUARANTINE], 0)) };
}

pub struct Checked;

fn real_layout(size: usize, align: usize) -> (Layout, usize) {
    let align = align.max(16);
    let off = HDR.max(align);
    (unsafe { Layout::from_size_align_unchecked(off + size + 8, align) }, off)
}

fn set_error(e: HeapError) {
    ERROR.with(|c| {
        if c.get() == HeapError::None {
            c.set(e)
        }
    });
}

impl Checked {
    unsafe fn get(&self, layout: Layout, lib: bool, zero: bool) -> *mut u8 {
        let (real, off) = real_layout(layout.size(), layout.align());
        let p = if zero { System.alloc_zeroed(real) } else { System.alloc(real) };
        if p.is_null() {
            return p;
        }
        let user = p.add(off);
        let h = user.sub(HDR) as *mut Header;
        *h = Header { magic: MAGIC_LIVE, size: layout.size() as u64, align: layout.align() as u64, lib: lib as u64 };
        (user.add(layout.size()) as *mut u64).write_unaligned(CANARY);
        if lib {
            let _ = LIB_LIVE.try_with(|c| {
                let live = c.get() + layout.size() as isize;
                c.set(live);
                LIB_PEAK.with(|p| if live > p.get() { p.set(live) });
                if live > LIMIT.with(|l| l.get()) {
                    LIMIT.with(|l| l.set(isize::MAX));
                    crate::explore::emergency("library memory grew without bound");
                }
            });
            let _ = LIB_BLOCKS.try_with(|c| c.set(c.get() + 1));
            let _ = LIB_ALLOCS.try_with(|c| c.set(c.get() + 1));
        }
        user
    }

    unsafe fn release(user: *mut u8) {
        let h = user.sub(HDR) as *const Header;
        let (real, off) = real_layout((*h).size as usize, (*h).align as usize);
        System.dealloc(user.sub(off), real);
    }
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        self.get(layout, IN_LIB.try_with(|c| c.get()).unwrap_or(false), false)
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        self.get(layout, IN_LIB.try_with(|c| c.get()).unwrap_or(false), true)
    }

    unsafe fn dealloc(&self, user: *mut u8, layout: Layout) {
        let h = user.sub(HDR) as *mut Header;
        if (*h).magic != MAGIC_LIVE {
            set_error(HeapError::DoubleOrInvalidFree);
            return;
        }
        let size = (*h).size as usize;
        let align = (*h).align as usize;
        let lib = (*h).lib != 0;
        if size != layout.size() || align != layout.align() {
            set_error(HeapError::LayoutMismatch { size, align, freed_size: layout.size(), freed_align: layout.align() });
        }
        if (user.add(size) as *const u64).read_unaligned() != CANARY {
            set_error(HeapError::Overrun { size });
        }
        (*h).magic = MAGIC_DEAD;
        if lib {
            let _ = LIB_LIVE.try_with(|c| c.set(c.get() - size as isize));
            let _ = LIB_BLOCKS.try_with(|c| c.set(c.get() - 1));
            if POISON.try_with(|c| c.get()).unwrap_or(false) {
                std::ptr::write_bytes(user, 0xDD, size);
                // Keep the block for a while, so that a second release is recognised
                let old = RING.with(|r| {
                    let r = &mut *r.get();
                    let i = r.1;
                    r.1 = (i + 1) % QUARANTINE;
                    std::mem::replace(&mut r.0[i], user as usize)
                });
                if old != 0 {
                    Checked::release(old as *mut u8);
                }
                return;
            }
        }
        Checked::release(user);
    }

    unsafe fn realloc(&self, user: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let h = user.sub(HDR) as *mut Header;
        let lib = (*h).lib != 0;
        let old_size = (*h).size as usize;
        let new_layout = Layout::from_size_align_unchecked(new_size, layout.align());
        let p = self.get(new_layout, lib, false);
        if !p.is_null() {
            std::ptr::copy_nonoverlapping(user, p, old_size.min(new_size));
            self.dealloc(user, layout);
        }
        p
    }
}

/// Runs library code: blocks allocated within are attributed to the library.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    struct Guard(bool);
    impl Drop for Guard {
        fn drop(&mut self) {
            IN_LIB.with(|c| c.set(self.0));
        }
    }
    let _g = Guard(IN_LIB.with(|c| c.replace(true)));
    f()
}

/// Runs harness code from within a library callback.
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    struct Guard(bool);
    impl Drop for Guard {
        fn drop(&mut self) {
            IN_LIB.with(|c| c.set(self.0));
        }
    }
    let _g = Guard(IN_LIB.with(|c| c.replace(false)));
    f()
}

pub fn lib_live() -> isize {
    LIB_LIVE.with(|c| c.get())
}

pub fn lib_blocks() -> isize {
    LIB_BLOCKS.with(|c| c.get())
}

pub fn lib_allocs() -> u64 {
    LIB_ALLOCS.with(|c| c.get())
}

pub fn lib_peak_reset() {
    LIB_PEAK.with(|p| p.set(lib_live()));
}

pub fn lib_peak() -> isize {
    LIB_PEAK.with(|p| p.get())
}

pub fn error() -> HeapError {
    ERROR.with(|c| c.get())
}

/// Called at the start of every execution.
pub fn begin(limit: isize, poison: bool) {
    IN_LIB.with(|c| c.set(false));
    LIB_LIVE.with(|c| c.set(0));
    LIB_BLOCKS.with(|c| c.set(0));
    LIB_ALLOCS.with(|c| c.set(0));
    LIB_PEAK.with(|c| c.set(0));
    LIMIT.with(|c| c.set(limit));
    ERROR.with(|c| c.set(HeapError::None));
    POISON.with(|c| c.set(poison));
}
