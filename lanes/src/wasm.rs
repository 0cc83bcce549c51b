//! The same run as a WebAssembly module; run.js passes the specification in and takes the report out.
#![allow(dead_code)]
mod classes;
mod drive;
mod ops;

static mut BUF: Vec<u8> = Vec::new();
static mut RES: Vec<u8> = Vec::new();

#[no_mangle]
pub extern "C" fn room(n: usize) -> *mut u8 {
    unsafe {
        let b = &mut *core::ptr::addr_of_mut!(BUF);
        b.clear();
        b.resize(n, 0);
        b.as_mut_ptr()
    }
}
#[no_mangle]
pub extern "C" fn go(scale: usize, seed: usize, per: usize, part: usize, parts: usize) -> usize {
    std::panic::set_hook(Box::new(|i| unsafe {
        let mut c = drive::current().to_vec();
        c.extend_from_slice(b"\n");
        c.extend_from_slice(i.to_string().replace('\n', " ").as_bytes());
        RES = c;
    }));
    let text = unsafe { String::from_utf8((*core::ptr::addr_of!(BUF)).clone()).unwrap() };
    let (r, ev, _) = drive::run(&text, &drive::Plan { scale, seed: seed as u64, per, part, parts, few: false, thin: 0, skip: &[] }, drive::Via::Here, &|isa| isa == "wasm128");
    unsafe {
        RES = format!("{r}\n{ev}").into_bytes();
        (*core::ptr::addr_of!(RES)).len()
    }
}
#[no_mangle]
pub extern "C" fn result() -> *const u8 {
    unsafe { (*core::ptr::addr_of!(RES)).as_ptr() }
}
#[no_mangle]
pub extern "C" fn result_len() -> usize {
    unsafe { (*core::ptr::addr_of!(RES)).len() }
}
