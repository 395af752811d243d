//! The allocator of the harness.
//!
//! Fresh allocations are filled with a byte the machine never writes by itself,
//! so that a read of memory nobody initialised is the same in every run, and
//! wrong.  Big allocations (guest memory) lie between inaccessible pages, so
//! that an access beyond them ends the process; small ones are followed by a
//! mark that is checked when they are released.
use std::alloc::{GlobalAlloc, Layout, System};

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    fn abort() -> !;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
}

const PAGE: usize = 4096;
const BIG: usize = 64 * 1024;
const FRESH: u8 = 0xA5;
const MARK: [u8; 16] = *b"\xC7\x3Ahost heap mark";

pub struct Filled;

fn up(n: usize, a: usize) -> usize {
    (n + a - 1) / a * a
}
fn big(l: &Layout) -> bool {
    l.size() >= BIG && l.align() <= PAGE
}
/// a small allocation with its mark
fn marked(l: &Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + MARK.len(), l.align()) }
}
unsafe fn map(l: &Layout) -> *mut u8 {
    let n = up(l.size(), PAGE);
    // readable and writable, private, anonymous
    let b = mmap(std::ptr::null_mut(), n + 2 * PAGE, 3, 0x22, -1, 0);
    if b as isize == -1 {
        return std::ptr::null_mut();
    }
    mprotect(b, PAGE, 0);
    mprotect(b.add(PAGE + n), PAGE, 0);
    b.add(PAGE + n - up(l.size(), l.align()))
}

unsafe impl GlobalAlloc for Filled {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = if big(&l) { map(&l) } else { System.alloc(marked(&l)) };
        if !p.is_null() {
            std::ptr::write_bytes(p, FRESH, l.size());
            if !big(&l) {
                std::ptr::copy_nonoverlapping(MARK.as_ptr(), p.add(l.size()), MARK.len());
            }
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if big(&l) {
            return map(&l);
        }
        let p = System.alloc_zeroed(marked(&l));
        if !p.is_null() {
            std::ptr::copy_nonoverlapping(MARK.as_ptr(), p.add(l.size()), MARK.len());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if big(&l) {
            let end = up(p as usize + l.size(), PAGE);
            let n = up(l.size(), PAGE);
            munmap((end - n - PAGE) as *mut u8, n + 2 * PAGE);
            return;
        }
        if std::slice::from_raw_parts(p.add(l.size()), MARK.len()) != MARK {
            let m = b"host memory after an allocation was overwritten\n";
            write(2, m.as_ptr(), m.len());
            abort();
        }
        System.dealloc(p, marked(&l))
    }
    // (realloc: the default, which allocates, copies and releases)
}
