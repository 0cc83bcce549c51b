//! The public operations as a WebAssembly module; run.js calls it with lines of a cases file.
#![allow(dead_code)]
#[path = "../../harness/src/guard.rs"]
mod guard;
#[path = "../../harness/src/mem.rs"]
mod mem;
#[path = "../../harness/src/ops.rs"]
mod ops;
mod engine {
    pub fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
}

static mut BUF: Vec<u8> = Vec::new();
static mut OPS: Vec<ops::OpImpl> = Vec::new();
static mut PANICKED: u32 = 0;

/// Room for n bytes of input.
#[no_mangle]
pub extern "C" fn room(n: usize) -> *mut u8 {
    unsafe {
        let b = &mut *core::ptr::addr_of_mut!(BUF);
        b.clear();
        b.resize(n, 0);
        b.as_mut_ptr()
    }
}
#[no_mangle]
pub extern "C" fn result() -> *const u8 {
    unsafe { (*core::ptr::addr_of!(BUF)).as_ptr() }
}
#[no_mangle]
pub extern "C" fn panicked() -> u32 {
    unsafe { PANICKED }
}
#[no_mangle]
pub extern "C" fn start() -> u32 {
    std::panic::set_hook(Box::new(|_| unsafe { PANICKED = 1 }));
    unsafe {
        OPS = ops::registry();
        (*core::ptr::addr_of!(OPS)).len() as u32
    }
}
/// Run the call described in the buffer ("op dlen src"); the outcome is left in the buffer.
#[no_mangle]
pub extern "C" fn call() -> usize {
    let text = unsafe { String::from_utf8((*core::ptr::addr_of!(BUF)).clone()).unwrap() };
    let mut it = text.split(' ');
    let (name, dlen, src) = (it.next().unwrap(), it.next().unwrap().parse().unwrap(), it.next().unwrap());
    let d = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    let src: Vec<u8> = if src == "-" { vec![] } else { src.as_bytes().chunks(2).map(|c| d(c[0]) << 4 | d(c[1])).collect() };
    let out = match unsafe { (*core::ptr::addr_of!(OPS)).iter() }.find(|o| o.name == name) {
        Some(op) => {
            let s = ops::show(ops::prepare(op, &src, dlen)());
            match guard::take() {
                Some(e) => format!("memory: {e}"),
                None => s,
            }
        }
        None => "absent".into(),
    };
    unsafe {
        BUF = out.into_bytes();
        (*core::ptr::addr_of!(BUF)).len()
    }
}
