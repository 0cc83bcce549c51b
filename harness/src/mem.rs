//! Buffers with inaccessible pages on both sides (heap blocks under Miri),
//! plus the crash reporter that says which call touched them.

#[cfg(not(any(miri, target_family = "wasm")))]
mod sys {
    use core::ffi::c_void;
    extern "C" {
        pub fn mmap(a: *mut c_void, l: usize, p: i32, f: i32, fd: i32, o: isize) -> *mut c_void;
        pub fn munmap(a: *mut c_void, l: usize) -> i32;
        pub fn mprotect(a: *mut c_void, l: usize, p: i32) -> i32;
        pub fn memfd_create(n: *const core::ffi::c_char, f: u32) -> i32;
        pub fn ftruncate(fd: i32, l: i64) -> i32;
        pub fn close(fd: i32) -> i32;
    }
    pub const R: i32 = 1;
    pub const RW: i32 = 3;
    pub const SHARED_FIXED: i32 = 0x1 | 0x10;
    pub const NONE: i32 = 0;
    pub const PRIV_ANON_NORESERVE: i32 = 0x2 | 0x20 | 0x4000;
}

/// A byte arena of `cap` usable bytes.
pub struct Arena {
    base: *mut u8,
    cap: usize,
    /// the same bytes where nothing can write them (or `base` again)
    view: *mut u8,
}
unsafe impl Send for Arena {}
unsafe impl Sync for Arena {}

#[cfg(not(any(miri, target_family = "wasm")))]
impl Drop for Arena {
    fn drop(&mut self) {
        unsafe {
            sys::munmap(self.base.sub(4096).cast(), self.cap + 2 * 4096);
            if self.view != self.base {
                sys::munmap(self.view.sub(4096).cast(), self.cap + 2 * 4096);
            }
        }
    }
}
#[cfg(any(miri, target_family = "wasm"))]
impl Drop for Arena {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.base, std::alloc::Layout::from_size_align(self.cap.max(1), 4).unwrap()) };
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Place {
    /// last byte just before the guard page
    End,
    /// first byte just after the guard page
    Start,
    /// some offset inside
    Off(usize),
}

pub const CANARY: usize = 64;

impl Arena {
    #[cfg(not(any(miri, target_family = "wasm")))]
    pub fn new(cap: usize) -> Arena {
        let page = 4096;
        let cap = (cap + page - 1) / page * page;
        unsafe {
            let p = sys::mmap(core::ptr::null_mut(), cap + 2 * page, sys::NONE, sys::PRIV_ANON_NORESERVE, -1, 0);
            assert!(p as isize != -1, "mmap");
            let base = (p as *mut u8).add(page);
            assert!(sys::mprotect(base.cast(), cap, sys::RW) == 0);
            Arena { base, cap, view: base }
        }
    }
    #[cfg(any(miri, target_family = "wasm"))]
    pub fn new(cap: usize) -> Arena {
        let base = unsafe { std::alloc::alloc_zeroed(std::alloc::Layout::from_size_align(cap.max(1), 4).unwrap()) };
        Arena { base, cap, view: base }
    }
    /// An arena whose blocks can be handed out where writing faults.
    #[cfg(not(any(miri, target_family = "wasm")))]
    pub fn with_view(cap: usize) -> Arena {
        let mut a = Arena::new(cap);
        let mut b = Arena::new(cap);
        unsafe {
            let fd = sys::memfd_create(b"source\0".as_ptr().cast(), 0);
            if fd >= 0 && sys::ftruncate(fd, a.cap as i64) == 0 {
                let p = sys::mmap(a.base.cast(), a.cap, sys::RW, sys::SHARED_FIXED, fd, 0);
                let q = sys::mmap(b.base.cast(), a.cap, sys::R, sys::SHARED_FIXED, fd, 0);
                assert!(p == a.base.cast() && q == b.base.cast(), "mmap");
                a.view = b.base;
                b.base = core::ptr::null_mut();
            }
            if fd >= 0 {
                sys::close(fd);
            }
        }
        if b.base.is_null() {
            core::mem::forget(b);
        }
        a
    }
    #[cfg(any(miri, target_family = "wasm"))]
    pub fn with_view(cap: usize) -> Arena {
        Arena::new(cap)
    }
    /// Where a block is seen without the right to write it.
    pub fn seen(&self, p: *mut u8) -> *const u8 {
        unsafe { self.view.offset(p.offset_from(self.base)) }
    }

    /// Place a block of `len` bytes (aligned to `unit` by construction when len is).
    pub fn at(&self, len: usize, place: Place, unit: usize) -> *mut u8 {
        assert!(len <= self.cap);
        let off = match place {
            Place::End => (self.cap - len) / unit * unit,
            Place::Start => 0,
            Place::Off(o) => (o.min(self.cap - len)) / unit * unit,
        };
        unsafe { self.base.add(off) }
    }
    pub fn cap(&self) -> usize {
        self.cap
    }
    pub fn bounds(&self) -> (*mut u8, *mut u8) {
        (self.base, unsafe { self.base.add(self.cap) })
    }
}

// ---------------------------------------------------------------------------------------------
// Crash and hang reporting.  CUR describes the call in progress; the handler writes it to fd 2's
// sibling file and exits 77 (fault) or 78 (a single call used more than 20 s of CPU time).

pub struct Cur {
    pub op: *const u8,
    pub op_len: usize,
    pub src: *const u8,
    pub src_len: usize,
    pub dlen: usize,
    pub calls: u64,
}
pub static mut CUR: Cur = Cur { op: core::ptr::null(), op_len: 0, src: core::ptr::null(), src_len: 0, dlen: 0, calls: 0 };

#[inline(always)]
pub fn set_cur(op: &str, src: *const u8, src_len: usize, dlen: usize) {
    if cfg!(any(miri, target_family = "wasm")) {
        return;
    }
    unsafe {
        let c = &mut *core::ptr::addr_of_mut!(CUR);
        c.op = op.as_ptr();
        c.op_len = op.len();
        c.src = src;
        c.src_len = src_len;
        c.dlen = dlen;
        c.calls += 1;
    }
}

/// Seconds of processor time after which a call counts as hanging.
#[cfg(not(any(miri, target_family = "wasm")))]
pub static mut HANG: u32 = 20;

#[cfg(any(miri, target_family = "wasm"))]
pub fn install_handlers(_path: &str) {}

#[cfg(not(any(miri, target_family = "wasm")))]
pub fn install_handlers(path: &str) {
    use core::ffi::c_void;
    extern "C" {
        fn signal(sig: i32, h: usize) -> usize;
        fn sigaltstack(ss: *const Stack, old: *mut c_void) -> i32;
        fn sigaction(sig: i32, act: *const Act, old: *mut c_void) -> i32;
        fn setitimer(which: i32, new: *const [isize; 4], old: *mut c_void) -> i32;
        fn open(p: *const core::ffi::c_char, fl: i32, ...) -> i32;
        fn write(fd: i32, p: *const c_void, n: usize) -> isize;
        fn _exit(c: i32) -> !;
    }
    #[repr(C)]
    struct Stack {
        sp: *mut c_void,
        flags: i32,
        size: usize,
    }
    #[repr(C)]
    struct Act {
        h: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    static mut FD: i32 = -1;
    static mut LAST: u64 = 0;
    static mut TICKS: u32 = 0;

    unsafe fn put(s: &[u8]) {
        write(*core::ptr::addr_of!(FD), s.as_ptr().cast(), s.len());
    }
    unsafe fn num(mut n: usize) {
        let mut b = [0u8; 24];
        let mut i = 24;
        loop {
            i -= 1;
            b[i] = b'0' + (n % 10) as u8;
            n /= 10;
            if n == 0 {
                break;
            }
        }
        put(&b[i..]);
    }
    unsafe fn report(kind: &[u8]) {
        let c = core::ptr::addr_of!(CUR);
        put(kind);
        put(b"\n");
        if !(*c).op.is_null() {
            put(core::slice::from_raw_parts((*c).op, (*c).op_len));
        }
        put(b"\n");
        num((*c).src_len);
        put(b"\n");
        num((*c).dlen);
        put(b"\n");
        let n = (*c).src_len.min(1 << 20);
        let hex = b"0123456789abcdef";
        for i in 0..n {
            let x = *(*c).src.add(i);
            put(&[hex[(x >> 4) as usize], hex[(x & 15) as usize]]);
        }
        put(b"\n");
    }
    extern "C" fn on_fault(sig: i32) {
        unsafe {
            report(match sig {
                11 => b"SIGSEGV",
                7 => b"SIGBUS",
                4 => b"SIGILL",
                8 => b"SIGFPE",
                _ => b"SIGABRT",
            });
            _exit(77)
        }
    }
    extern "C" fn on_tick(_sig: i32) {
        unsafe {
            let calls = (*core::ptr::addr_of!(CUR)).calls;
            if calls == *core::ptr::addr_of!(LAST) && calls > 0 {
                TICKS += 1;
                if TICKS >= HANG {
                    report(b"HANG");
                    _exit(78)
                }
            } else {
                LAST = calls;
                TICKS = 0;
            }
        }
    }
    unsafe {
        let cp = format!("{path}\0");
        FD = open(cp.as_ptr().cast(), 0o1 | 0o100 | 0o1000, 0o644u32);
        let stk = Box::leak(vec![0u8; 1 << 16].into_boxed_slice());
        let ss = Stack { sp: stk.as_mut_ptr().cast(), flags: 0, size: stk.len() };
        sigaltstack(&ss, core::ptr::null_mut());
        for sig in [4, 6, 7, 8, 11] {
            let act = Act { h: on_fault as *const () as usize, mask: [0; 16], flags: 0x0800_0000 | 0x4000_0000, restorer: 0 };
            sigaction(sig, &act, core::ptr::null_mut());
        }
        signal(27, on_tick as *const () as usize);
        setitimer(2, &[1, 0, 1, 0], core::ptr::null_mut());
    }
}
