//! Global allocator that surrounds every heap block with guard bytes and remembers its layout,
//! so that a write past a Vec/String/Box or a release with the wrong size is noticed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

pub struct Guard;
const PAD: usize = 64;
const MAGIC: u8 = 0xd7;
static BAD: AtomicU32 = AtomicU32::new(0);

#[cfg(not(miri))]
#[global_allocator]
static G: Guard = Guard;

/// What has gone wrong since the last call.
pub fn take() -> Option<&'static str> {
    match BAD.swap(0, Relaxed) {
        0 => None,
        x if x & 1 != 0 => Some("wrote outside a heap block"),
        _ => Some("heap block released with another layout"),
    }
}

fn outer(l: Layout) -> Option<(Layout, usize)> {
    let head = l.align().max(PAD);
    let n = l.size().checked_add(head)?.checked_add(PAD)?;
    Layout::from_size_align(n, l.align().max(16)).ok().map(|x| (x, head))
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some((o, head)) = outer(l) else { return core::ptr::null_mut() };
        let p = System.alloc(o);
        if p.is_null() {
            return p;
        }
        core::ptr::write_bytes(p, MAGIC, head);
        let u = p.add(head);
        (u.sub(16) as *mut usize).write_unaligned(l.size());
        (u.sub(8) as *mut usize).write_unaligned(l.align());
        core::ptr::write_bytes(u.add(l.size()), MAGIC, PAD);
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let size = (u.sub(16) as *const usize).read_unaligned();
        let align = (u.sub(8) as *const usize).read_unaligned();
        if size != l.size() || align != l.align() {
            // the header itself may have been overwritten: look at the rest of it
            let intact = (16..40).all(|i| *u.sub(i + 1) == MAGIC);
            BAD.fetch_or(if intact { 2 } else { 1 }, Relaxed);
            return; // leaked on purpose
        }
        let (o, head) = outer(l).unwrap();
        let p = u.sub(head);
        if (0..head - 16).any(|i| *p.add(i) != MAGIC) || (0..PAD).any(|i| *u.add(l.size() + i) != MAGIC) {
            BAD.fetch_or(1, Relaxed);
        }
        System.dealloc(p, o)
    }
}
