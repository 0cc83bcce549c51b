//! The public operations of the crates under their names in spec/Api.tla.
//! Only plumbing: which function, how the arguments are handed over.

use base32_simd::{Base32, BASE32, BASE32HEX, BASE32HEX_NO_PAD, BASE32_NO_PAD};
use base64_simd::{Base64, STANDARD, STANDARD_NO_PAD, URL_SAFE, URL_SAFE_NO_PAD};
use hex_simd::AsciiCase;
use std::mem::MaybeUninit;
use uuid::Uuid;
use uuid_simd::UuidExt;
use vsimd_out::*;

mod vsimd_out {
    pub use base64_simd::{AsOut, Out};
}

pub type SliceRet = Result<(*const u8, usize), ()>;

pub enum Call {
    /// (src, dst, dst length in bytes)
    Slice(Box<dyn Fn(&[u8], *mut u8, usize) -> SliceRet + Sync + Send>),
    /// in place over (ptr, len in bytes)
    InPlace(Box<dyn Fn(*mut u8, usize) -> SliceRet + Sync + Send>),
    Owned(Box<dyn Fn(&[u8]) -> Result<Vec<u8>, ()> + Sync + Send>),
    AppendVec(Box<dyn Fn(&[u8], &mut Vec<u8>) -> Result<(), ()> + Sync + Send>),
    AppendStr(Box<dyn Fn(&[u8], &mut String) -> Result<(), ()> + Sync + Send>),
    Test(Box<dyn Fn(&[u8]) -> bool + Sync + Send>),
    Length(Box<dyn Fn(&[u8]) -> Result<usize, ()> + Sync + Send>),
}

pub struct OpImpl {
    pub name: String,
    pub call: Call,
}

unsafe fn out<'a>(p: *mut u8, n: usize) -> Out<'a, [u8]> {
    std::slice::from_raw_parts_mut(p.cast::<MaybeUninit<u8>>(), n).as_out()
}
fn ret(r: &[u8]) -> (*const u8, usize) {
    (r.as_ptr(), r.len())
}

macro_rules! radix_ops {
    ($v:ident, $name:expr, $c:expr) => {{
        let c = $c;
        let n = |s: &str| format!("{}.{}", $name, s);
        $v.push(OpImpl { name: n("encode"), call: Call::Slice(Box::new(move |s, d, l| unsafe {
            c.encode(s, out(d, l)).map(|r| ret(r)).map_err(|_| ()) })) });
        $v.push(OpImpl { name: n("encode_as_str"), call: Call::Slice(Box::new(move |s, d, l| unsafe {
            c.encode_as_str(s, out(d, l)).map(|r| ret(r.as_bytes())).map_err(|_| ()) })) });
        $v.push(OpImpl { name: n("enc_boxbytes"), call: Call::Owned(Box::new(move |s| Ok(c.encode_type::<Box<[u8]>>(s).into_vec()))) });
        $v.push(OpImpl { name: n("enc_boxstr"), call: Call::Owned(Box::new(move |s| Ok(c.encode_type::<Box<str>>(s).into_string().into_bytes()))) });
        $v.push(OpImpl { name: n("enc_vec"), call: Call::Owned(Box::new(move |s| Ok(c.encode_type::<Vec<u8>>(s)))) });
        $v.push(OpImpl { name: n("enc_string"), call: Call::Owned(Box::new(move |s| Ok(c.encode_type::<String>(s).into_bytes()))) });
        $v.push(OpImpl { name: n("to_string"), call: Call::Owned(Box::new(move |s| Ok(c.encode_to_string(s).into_bytes()))) });
        $v.push(OpImpl { name: n("enc_append_vec"), call: Call::AppendVec(Box::new(move |s, v| { c.encode_append(s, v); Ok(()) })) });
        $v.push(OpImpl { name: n("enc_append_string"), call: Call::AppendStr(Box::new(move |s, v| { c.encode_append(s, v); Ok(()) })) });
        $v.push(OpImpl { name: n("decode"), call: Call::Slice(Box::new(move |s, d, l| unsafe {
            c.decode(s, out(d, l)).map(|r| ret(r)).map_err(|_| ()) })) });
        $v.push(OpImpl { name: n("decode_inplace"), call: Call::InPlace(Box::new(move |p, l| unsafe {
            c.decode_inplace(std::slice::from_raw_parts_mut(p, l)).map(|r| ret(r)).map_err(|_| ()) })) });
        $v.push(OpImpl { name: n("dec_box"), call: Call::Owned(Box::new(move |s| c.decode_type::<Box<[u8]>>(s).map(|b| b.into_vec()).map_err(|_| ()))) });
        $v.push(OpImpl { name: n("dec_vec"), call: Call::Owned(Box::new(move |s| c.decode_type::<Vec<u8>>(s).map_err(|_| ()))) });
        $v.push(OpImpl { name: n("to_vec"), call: Call::Owned(Box::new(move |s| c.decode_to_vec(s).map_err(|_| ()))) });
        $v.push(OpImpl { name: n("dec_append_vec"), call: Call::AppendVec(Box::new(move |s, v| c.decode_append(s, v).map_err(|_| ()))) });
        $v.push(OpImpl { name: n("check"), call: Call::Test(Box::new(move |s| c.check(s).is_ok())) });
        $v.push(OpImpl { name: n("decoded_length"), call: Call::Length(Box::new(move |s| c.decoded_length(s).map_err(|_| ()))) });
    }};
}

pub const B64: [(&str, &Base64); 4] =
    [("b64std", &STANDARD), ("b64url", &URL_SAFE), ("b64stdnp", &STANDARD_NO_PAD), ("b64urlnp", &URL_SAFE_NO_PAD)];
pub const B32: [(&str, &Base32); 4] =
    [("b32", &BASE32), ("b32hex", &BASE32HEX), ("b32np", &BASE32_NO_PAD), ("b32hexnp", &BASE32HEX_NO_PAD)];
pub const CASES: [(&str, AsciiCase); 2] = [("hexlo", AsciiCase::Lower), ("hexup", AsciiCase::Upper)];

fn u16s(s: &[u8]) -> &[u16] {
    assert!(s.as_ptr() as usize % 2 == 0 && s.len() % 2 == 0);
    unsafe { std::slice::from_raw_parts(s.as_ptr().cast(), s.len() / 2) }
}
fn u32s(s: &[u8]) -> &[u32] {
    assert!(s.as_ptr() as usize % 4 == 0 && s.len() % 4 == 0);
    unsafe { std::slice::from_raw_parts(s.as_ptr().cast(), s.len() / 4) }
}
fn uuid_of(s: &[u8]) -> Uuid {
    Uuid::from_bytes(s.try_into().unwrap())
}

/// Pool the parallel operations run in (None: the caller's pool).
#[cfg(feature = "parallel")]
pub static PAR_POOL: std::sync::Mutex<Option<std::sync::Arc<rayon::ThreadPool>>> = std::sync::Mutex::new(None);

pub fn registry() -> Vec<OpImpl> {
    let mut v: Vec<OpImpl> = Vec::new();
    for (name, c) in B64 {
        radix_ops!(v, name, c);
    }
    for (name, c) in B32 {
        radix_ops!(v, name, c);
    }
    #[cfg(feature = "parallel")]
    for (name, c) in B64 {
        v.push(OpImpl {
            name: format!("{name}.par_encode"),
            call: Call::Slice(Box::new(move |s, d, l| unsafe { 
                let d = d as usize;
                let f = move || c.par_encode(s, out(d as *mut u8, l)).map(|r| (r.as_ptr() as usize, r.len())).map_err(|_| ());
                let pool = PAR_POOL.lock().unwrap().clone();
                match pool {
                    Some(p) => p.install(f),
                    None => f(),
                }
                .map(|(p, n)| (p as *const u8, n))
            })),
        });
    }
    for (name, k) in CASES {
        let n = |s: &str| format!("{name}.{s}");
        v.push(OpImpl { name: n("encode"), call: Call::Slice(Box::new(move |s, d, l| unsafe {
            hex_simd::encode(s, out(d, l), k).map(|r| ret(r)).map_err(|_| ()) })) });
        v.push(OpImpl { name: n("encode_as_str"), call: Call::Slice(Box::new(move |s, d, l| unsafe {
            hex_simd::encode_as_str(s, out(d, l), k).map(|r| ret(r.as_bytes())).map_err(|_| ()) })) });
        v.push(OpImpl { name: n("encode_raw"), call: Call::Slice(Box::new(move |s, d, _| unsafe {
            Ok((d as *const u8, hex_simd::encode_raw(s.as_ptr(), s.len(), d, k))) })) });
        v.push(OpImpl { name: n("enc_boxbytes"), call: Call::Owned(Box::new(move |s| Ok(hex_simd::encode_type::<Box<[u8]>>(s, k).into_vec()))) });
        v.push(OpImpl { name: n("enc_boxstr"), call: Call::Owned(Box::new(move |s| Ok(hex_simd::encode_type::<Box<str>>(s, k).into_string().into_bytes()))) });
        v.push(OpImpl { name: n("enc_vec"), call: Call::Owned(Box::new(move |s| Ok(hex_simd::encode_type::<Vec<u8>>(s, k)))) });
        v.push(OpImpl { name: n("enc_string"), call: Call::Owned(Box::new(move |s| Ok(hex_simd::encode_type::<String>(s, k).into_bytes()))) });
        v.push(OpImpl { name: n("to_string"), call: Call::Owned(Box::new(move |s| Ok(hex_simd::encode_to_string(s, k).into_bytes()))) });
        v.push(OpImpl { name: n("enc_append_vec"), call: Call::AppendVec(Box::new(move |s, v| { hex_simd::encode_append(s, v, k); Ok(()) })) });
        v.push(OpImpl { name: n("enc_append_string"), call: Call::AppendStr(Box::new(move |s, v| { hex_simd::encode_append(s, v, k); Ok(()) })) });
    }
    let n = |s: &str| format!("hex.{s}");
    v.push(OpImpl { name: n("decode"), call: Call::Slice(Box::new(|s, d, l| unsafe {
        hex_simd::decode(s, out(d, l)).map(|r| ret(r)).map_err(|_| ()) })) });
    v.push(OpImpl { name: n("decode_raw"), call: Call::Slice(Box::new(|s, d, _| unsafe {
        hex_simd::decode_raw(s.as_ptr(), s.len(), d).map(|l| (d as *const u8, l)).map_err(|_| ()) })) });
    v.push(OpImpl { name: n("decode_raw_inplace"), call: Call::InPlace(Box::new(|p, l| unsafe {
        hex_simd::decode_raw(p, l, p).map(|l| (p as *const u8, l)).map_err(|_| ()) })) });
    v.push(OpImpl { name: n("decode_inplace"), call: Call::InPlace(Box::new(|p, l| unsafe {
        hex_simd::decode_inplace(std::slice::from_raw_parts_mut(p, l)).map(|r| ret(r)).map_err(|_| ()) })) });
    v.push(OpImpl { name: n("dec_box"), call: Call::Owned(Box::new(|s| hex_simd::decode_type::<Box<[u8]>>(s).map(|b| b.into_vec()).map_err(|_| ()))) });
    v.push(OpImpl { name: n("dec_vec"), call: Call::Owned(Box::new(|s| hex_simd::decode_type::<Vec<u8>>(s).map_err(|_| ()))) });
    v.push(OpImpl { name: n("to_vec"), call: Call::Owned(Box::new(|s| hex_simd::decode_to_vec(s).map_err(|_| ()))) });
    v.push(OpImpl { name: n("dec_append_vec"), call: Call::AppendVec(Box::new(|s, v| hex_simd::decode_append(s, v).map_err(|_| ()))) });
    v.push(OpImpl { name: n("check"), call: Call::Test(Box::new(|s| hex_simd::check(s).is_ok())) });
    v.push(OpImpl { name: n("check_raw"), call: Call::Test(Box::new(|s| unsafe { hex_simd::check_raw(s.as_ptr(), s.len()).is_ok() })) });

    let n = |s: &str| format!("forgiving.{s}");
    v.push(OpImpl { name: n("decode"), call: Call::Slice(Box::new(|s, d, l| unsafe {
        base64_simd::forgiving_decode(s, out(d, l)).map(|r| ret(r)).map_err(|_| ()) })) });
    v.push(OpImpl { name: n("decode_inplace"), call: Call::InPlace(Box::new(|p, l| unsafe {
        base64_simd::forgiving_decode_inplace(std::slice::from_raw_parts_mut(p, l)).map(|r| ret(r)).map_err(|_| ()) })) });
    v.push(OpImpl { name: n("to_vec"), call: Call::Owned(Box::new(|s| base64_simd::forgiving_decode_to_vec(s).map_err(|_| ()))) });

    let n = |s: &str| format!("uuid.{s}");
    macro_rules! parse {
        ($name:expr, $f:path) => {
            v.push(OpImpl { name: n($name), call: Call::Slice(Box::new(|s, d, l| unsafe {
                assert!(l == 16);
                $f(s, (&mut *d.cast::<MaybeUninit<[u8; 16]>>()).as_out()).map(|r| ret(r)).map_err(|_| ()) })) })
        };
    }
    parse!("parse", uuid_simd::parse);
    parse!("parse_simple", uuid_simd::parse_simple);
    parse!("parse_hyphenated", uuid_simd::parse_hyphenated);
    macro_rules! fmt {
        ($name:expr, $f:path, $n:expr, $k:expr) => {
            v.push(OpImpl { name: n($name), call: Call::Slice(Box::new(|s, d, l| unsafe {
                assert!(l == $n && s.len() == 16);
                let src: &[u8; 16] = &*s.as_ptr().cast();
                Ok(ret($f(src, (&mut *d.cast::<MaybeUninit<[u8; $n]>>()).as_out(), $k))) })) })
        };
    }
    fmt!("format_simple_lo", uuid_simd::format_simple, 32, AsciiCase::Lower);
    fmt!("format_simple_up", uuid_simd::format_simple, 32, AsciiCase::Upper);
    fmt!("format_hyphen_lo", uuid_simd::format_hyphenated, 36, AsciiCase::Lower);
    fmt!("format_hyphen_up", uuid_simd::format_hyphenated, 36, AsciiCase::Upper);
    v.push(OpImpl { name: n("ext_parse"), call: Call::Owned(Box::new(|s| <Uuid as UuidExt>::parse(s).map(|u| u.as_bytes().to_vec()).map_err(|_| ()))) });
    v.push(OpImpl { name: n("ext_parse_simple"), call: Call::Owned(Box::new(|s| <Uuid as UuidExt>::parse_simple(s).map(|u| u.as_bytes().to_vec()).map_err(|_| ()))) });
    v.push(OpImpl { name: n("ext_parse_hyphenated"), call: Call::Owned(Box::new(|s| <Uuid as UuidExt>::parse_hyphenated(s).map(|u| u.as_bytes().to_vec()).map_err(|_| ()))) });
    macro_rules! ext {
        ($name:expr, $m:ident, $f:literal) => {
            v.push(OpImpl { name: n($name), call: Call::Owned(Box::new(|s| {
                if s.len() != 16 { return Err(()); }
                Ok(format!($f, UuidExt::$m(&uuid_of(s))).into_bytes()) })) })
        };
    }
    ext!("ext_simple_x", format_simple, "{:x}");
    ext!("ext_simple_X", format_simple, "{:X}");
    ext!("ext_simple_d", format_simple, "{}");
    ext!("ext_hyphen_x", format_hyphenated, "{:x}");
    ext!("ext_hyphen_X", format_hyphenated, "{:X}");
    ext!("ext_hyphen_d", format_hyphenated, "{}");

    let n = |s: &str| format!("unicode.{s}");
    v.push(OpImpl { name: n("is_ascii"), call: Call::Test(Box::new(|s| unicode_simd::is_ascii(s))) });
    v.push(OpImpl { name: n("from_ascii"), call: Call::Owned(Box::new(|s| match unicode_simd::from_ascii(s) {
        Some(t) => Ok(t.as_bytes().to_vec()), None => Err(()) })) });
    v.push(OpImpl { name: n("is_utf32le"), call: Call::Test(Box::new(|s| {
        // the words of the specification are the code units' bytes, least significant first;
        // the operation's input are the code units as values
        if cfg!(target_endian = "big") {
            let v: Vec<u32> = u32s(s).iter().map(|x| u32::from_le(*x)).collect();
            return unicode_simd::is_utf32le(&v);
        }
        unicode_simd::is_utf32le(u32s(s)) })) });
    v.push(OpImpl { name: n("swap16"), call: Call::Slice(Box::new(|s, d, l| unsafe {
        let r = unicode_simd::utf16_swap_endianness(u16s(s), std::slice::from_raw_parts_mut(d.cast::<MaybeUninit<u16>>(), l / 2).as_out());
        Ok((r.as_ptr().cast(), r.len() * 2)) })) });
    v.push(OpImpl { name: n("swap32"), call: Call::Slice(Box::new(|s, d, l| unsafe {
        let r = unicode_simd::utf32_swap_endianness(u32s(s), std::slice::from_raw_parts_mut(d.cast::<MaybeUninit<u32>>(), l / 4).as_out());
        Ok((r.as_ptr().cast(), r.len() * 4)) })) });
    v.push(OpImpl { name: n("swap16_inplace"), call: Call::InPlace(Box::new(|p, l| unsafe {
        unicode_simd::utf16_swap_endianness_inplace(std::slice::from_raw_parts_mut(p.cast(), l / 2)); Ok((p as *const u8, l)) })) });
    v.push(OpImpl { name: n("swap32_inplace"), call: Call::InPlace(Box::new(|p, l| unsafe {
        unicode_simd::utf32_swap_endianness_inplace(std::slice::from_raw_parts_mut(p.cast(), l / 4)); Ok((p as *const u8, l)) })) });
    v
}

/// Size of the destination array of a fixed-size operation.
pub fn fixed_len(name: &str) -> usize {
    if name.contains("parse") {
        16
    } else if name.contains("hyphen") {
        36
    } else {
        32
    }
}

/// One call ready to run: arguments are copied out of the way, the source ends at a guard page.
pub fn prepare<'a>(op: &'a OpImpl, src: &[u8], dlen: usize) -> Box<dyn FnOnce() -> std::thread::Result<Result<Vec<u8>, ()>> + 'a> {
    use crate::mem::{set_cur, Arena, Place};
    // under Miri the block is exactly as big as the slice: every byte outside is an error
    let round = |n: usize| if cfg!(any(miri, target_family = "wasm")) { n } else { (n + 8192).div_ceil(4096) * 4096 };
    let sa = Arena::new(round(src.len()));
    let da = Arena::new(round(dlen.max(src.len())));
    let s = sa.at(src.len(), Place::End, 4);
    unsafe { core::ptr::copy_nonoverlapping(src.as_ptr(), s, src.len()) };
    set_cur(&op.name, s, src.len(), dlen);
    let sl: &'static [u8] = unsafe { core::slice::from_raw_parts(s, src.len()) };
    let n = src.len();
    type F<'a> = Box<dyn FnOnce() -> Result<Vec<u8>, ()> + 'a>;
    let f: F<'a> = match &op.call {
        Call::Slice(c) => {
            let d = da.at(dlen, Place::End, 4);
            Box::new(move || c(sl, d, dlen).map(|(p, n)| unsafe { core::slice::from_raw_parts(p, n).to_vec() }))
        }
        Call::InPlace(c) => {
            let d = da.at(n, Place::End, 4);
            unsafe { core::ptr::copy_nonoverlapping(src.as_ptr(), d, n) };
            Box::new(move || c(d, n).map(|(p, n)| unsafe { core::slice::from_raw_parts(p, n).to_vec() }))
        }
        Call::Owned(c) => Box::new(move || c(sl)),
        Call::AppendVec(c) => Box::new(move || {
            let mut v = vec![];
            c(sl, &mut v).map(|_| v)
        }),
        Call::AppendStr(c) => Box::new(move || {
            let mut v = String::new();
            c(sl, &mut v).map(|_| v.into_bytes())
        }),
        Call::Test(c) => Box::new(move || if c(sl) { Ok(vec![]) } else { Err(()) }),
        Call::Length(c) => Box::new(move || c(sl).map(|n| n.to_string().into_bytes())),
    };
    Box::new(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        drop((sa, da));
        r
    })
}

pub fn show(r: std::thread::Result<Result<Vec<u8>, ()>>) -> String {
    match r {
        Err(_) => "panic".to_string(),
        Ok(Err(())) => "err".to_string(),
        Ok(Ok(v)) => {
            let mut s = String::from("ok:");
            s.push_str(&crate::engine::hex(&v));
            s
        }
    }
}
