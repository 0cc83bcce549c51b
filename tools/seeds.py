"""Definitions of the planted bugs (see plant.py)."""

B64 = 'base64-simd = { path = "@base64-simd" }'
B32 = 'base32-simd = { path = "@base32-simd" }'
HEX = 'hex-simd = { path = "@hex-simd" }'
UUID = 'uuid-simd = { path = "@uuid-simd", features = ["uuid"] }\nuuid = "1"'
UNI = 'unicode-simd = { path = "@unicode-simd" }'
ND = ', default-features = false, features = ["std"]'
C = "crates/"


def nd(dep):
    return dep.replace(" }", ND + " }")


SEEDS = {}


def seed(bid, prop, edits, deps, demo, needs, breaks, **kw):
    SEEDS[bid] = dict(prop=prop, edits=edits, deps=deps, demo=demo, needs=needs, breaks=breaks, **kw)


seed("nopad-trailing-bits", "C02",
     [(C + "base64-simd/src/decode.rs", "    let forgiving = config.extra.forgiving();",
       "    let forgiving = !matches!(config.extra, Extra::Pad);")],
     B64, r'''
fn main() {
    for e in [base64_simd::STANDARD_NO_PAD, base64_simd::URL_SAFE_NO_PAD] {
        for t in ["QR", "QUJDRA", "QUF"] {
            let ok = e.decode_to_vec(t).is_ok();
            let canonical = e.decode_to_vec(t).map(|v| e.encode_to_string(v) == t).unwrap_or(false);
            assert_eq!(ok, canonical, "{t}");
        }
    }
}
''', "unpadded variants; a text whose last symbol carries nonzero unused bits",
     "the unpadded Base64 variants decode texts that no byte string encodes to")

seed("forgiving-pad-anywhere", "C03",
     [(C + "base64-simd/src/decode.rs", "                if len % 4 == 0 {\n                    len - count_pad()",
       "                if len % 4 != 1 {\n                    len - count_pad()")],
     B64, r'''
fn main() {
    for t in ["ab=", "abcdab=", " a b = ", "abc=d="] {
        assert!(base64_simd::forgiving_decode_to_vec(t.as_bytes()).is_err(), "{t:?}");
    }
    assert!(base64_simd::forgiving_decode_to_vec(b"ab==").is_ok());
}
''', "a text whose length without white space is not a multiple of four but ends in '='",
     "forgiving decoding accepts incomplete padding, which the WHATWG algorithm rejects")

seed("highbit-any-halves", "C14",
     [(C + "vsimd/src/mask.rs",
       "        let x = s.v128_or(x.0, x.1);\n        return u8x16_highbit_any(s, x);",
       "        let x = s.v128_and(x.0, x.1);\n        return u8x16_highbit_any(s, x);")],
     [nd(B64)], r'''
fn main() {
    let mut t = vec![b'A'; 64];
    t[3] = b'!';
    assert!(base64_simd::STANDARD.decode_to_vec(&t).is_err());
}
''', "a CPU with SSSE3 but not AVX2; an invalid symbol in one half of a 32-byte block",
     "below AVX2 vector decoding accepts blocks with an invalid symbol in only one half",
     rustflags="-C target-feature=+ssse3")

seed("hex-sse2-g", "C06",
     [(C + "vsimd/src/hex.rs", "let t8 = s.u8x16_add_sat(t7, s.u8x16_splat(127 - 15));",
       "let t8 = s.u8x16_add_sat(t7, s.u8x16_splat(127 - 16));")],
     [nd(HEX)], r'''
fn main() {
    let mut t = vec![b'0'; 32];
    for c in 0..=255u8 {
        t[5] = c;
        assert_eq!(hex_simd::decode_to_vec(&t).is_ok(), c.is_ascii_hexdigit(), "{c:#x}");
    }
}
''', "SSE2-only execution; the letter g or G inside a 16-byte block",
     "hex decoding accepts 'g' as a digit on SSE2")

seed("b32-estimate-overflow", "C08",
     [(C + "base32-simd/src/lib.rs",
       "        if n % 8 == 0 {\n            n / 8 * 5\n        } else {\n            (n / 8 + 1) * 5\n        }",
       "        (n + 7) / 8 * 5")],
     B32, r'''
fn main() {
    for d in 0..9usize {
        let n = usize::MAX - d;
        let e = base32_simd::BASE32.estimated_decoded_length(std::hint::black_box(n));
        assert!(e >= n / 8 * 5, "{n} {e}");
    }
}
''', "a length within seven of usize::MAX",
     "the estimated decoded length wraps to zero (or panics with overflow checks)")

seed("urn-case-insensitive", "C09",
     [(C + "uuid-simd/src/lib.rs",
       'src.strip_prefix(b"urn:uuid:").ok_or_else(Error::new)?.as_ptr()',
       '{\n                ensure!(src[..9].iter().map(|b| b | 0x20).eq(*b"urn:uuid:"));\n                src.as_ptr().add(9)\n            }')],
     UUID, r'''
use uuid_simd::UuidExt;
fn main() {
    let body = "67e55044-10b1-426f-9247-bb680e5fe0c8";
    for p in ["URN:uuid:", "urn:UUID:", "urn\u{1a}uuid:"] {
        let t = format!("{p}{body}");
        assert!(uuid::Uuid::parse(t.as_bytes()).is_err(), "{t:?}");
    }
    assert!(uuid::Uuid::parse(format!("urn:uuid:{body}")).is_ok());
}
''', "a 45-character text whose prefix differs from urn:uuid: only in bit 0x20 of some bytes",
     "URN parsing accepts prefixes other than the literal urn:uuid:")

seed("simple-upperhex", "C10",
     [(C + "uuid-simd/src/ext.rs",
       "        let case = AsciiCase::Upper;\n        unsafe { format_uuid(self.0, case, crate::format_simple,",
       "        let case = if f.alternate() { AsciiCase::Upper } else { AsciiCase::Lower };\n        unsafe { format_uuid(self.0, case, crate::format_simple,")],
     UUID, r'''
use uuid_simd::UuidExt;
fn main() {
    let u = uuid::Uuid::from_u128(0xabcdef);
    assert_eq!(format!("{:X}", u.format_simple()), "00000000000000000000000000ABCDEF");
}
''', "the upper-hex display of the simple adapter", "UpperHex of the simple form prints lower-case digits")

seed("ascii-wide-loop", "C11",
     [(C + "unicode-simd/src/ascii.rs",
       "        let end = src.add(len / 64 * 64);\n        while src < end {\n            let x: [__m128i; 4] = loadu(src);",
       """        let wide = src.add(len / 256 * 256);
        while src < wide {
            let x: [__m128i; 16] = loadu(src);
            let mut acc = x[0];
            let mut i = 1;
            while i < 15 {
                acc = or(acc, x[i]);
                i += 1;
            }
            ensure!(check16(acc));
            src = src.add(256);
        }
        len %= 256;
        let end = src.add(len / 64 * 64);
        while src < end {
            let x: [__m128i; 4] = loadu(src);""")],
     UNI, r'''
fn main() {
    for n in [256usize, 300, 512, 1000, 5000] {
        let mut v = vec![b'a'; n];
        assert!(unicode_simd::is_ascii(&v));
        for i in 0..n {
            v[i] = 0x80;
            assert!(!unicode_simd::is_ascii(&v), "{n} {i}");
            v[i] = b'a';
        }
    }
}
''', "an input of at least 256 bytes whose only non-ASCII bytes are in the last 16 of a 256-byte block",
     "is_ascii accepts (and from_ascii turns into str) non-ASCII bytes")

seed("utf32-bound", "C12",
     [(C + "unicode-simd/src/utf32.rs", "let m = s.u32x8_splat(0x11_0000 - 0x800 - 1);",
       "let m = s.u32x8_splat(0x11_0000 - 0x800);")],
     UNI, r'''
fn main() {
    for n in 1..40usize {
        for i in 0..n {
            let mut v = vec![0x41u32; n];
            v[i] = 0x110000;
            assert!(!unicode_simd::is_utf32le(&v), "{n} {i}");
            v[i] = 0x10ffff;
            assert!(unicode_simd::is_utf32le(&v), "{n} {i}");
        }
    }
}
''', "the unit 0x110000 in a full group of eight", "the vector UTF-32 check accepts 0x110000")

seed("bswap-tail", "C13",
     [(C + "vsimd/src/bswap.rs", "    len %= T::LANES;\n", "    len %= 8;\n")],
     UNI, r'''
fn main() {
    for n in 0..70usize {
        let src: Vec<u16> = (0..n as u16).map(|x| x * 259 + 1).collect();
        let mut v = src.clone();
        unicode_simd::utf16_swap_endianness_inplace(&mut v);
        for i in 0..n {
            assert_eq!(v[i], src[i].swap_bytes(), "{n} {i}");
        }
    }
}
''', "16-bit units; a length that leaves 8 to 15 units after the last full vector",
     "the first eight units of the tail, or the units after them, stay unswapped")

seed("dispatch-flag-first", "C15",
     [(C + "vsimd/src/macros.rs",
       """                unsafe fn init_ifunc($($arg_name: $arg_type),*) -> $ret {
                    let f = resolve();
                    IFUNC.store(f as *mut (), Relaxed);
                    f($($arg_name),*)""",
       """                unsafe fn init_ifunc($($arg_name: $arg_type),*) -> $ret {
                    if !READY.swap(true, Relaxed) {
                        IFUNC.store(resolve() as *mut (), Relaxed);
                    }
                    auto($($arg_name),*)"""),
      (C + "vsimd/src/macros.rs",
       "use core::sync::atomic::{AtomicPtr, Ordering::Relaxed};\n",
       "use core::sync::atomic::{AtomicBool, AtomicPtr, Ordering::Relaxed};\n\n                static READY: AtomicBool = AtomicBool::new(false);\n"),
      (C + "vsimd/src/macros.rs",
       "static IFUNC: AtomicPtr<()> = AtomicPtr::new(init_ifunc as *mut ());",
       "static IFUNC: AtomicPtr<()> = AtomicPtr::new(core::ptr::null_mut());"),
      (C + "vsimd/src/macros.rs",
       "                    let f: unsafe fn($($arg_type),*) -> $ret = core::mem::transmute(IFUNC.load(Relaxed));",
       "                    if !READY.load(Relaxed) {\n                        return init_ifunc($($arg_name),*);\n                    }\n                    let f: unsafe fn($($arg_type),*) -> $ret = core::mem::transmute(IFUNC.load(Relaxed));"),
      ],
     [B64, HEX], r'''
use std::sync::{Arc, Barrier};
fn child() {
    let n = 8;
    let b = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n).map(|_| {
        let b = b.clone();
        std::thread::spawn(move || {
            b.wait();
            assert!(hex_simd::check(b"00ff").is_ok());
            b.wait();
            assert_eq!(base64_simd::STANDARD.encode_to_string(b"abc"), "YWJj");
            b.wait();
            assert_eq!(hex_simd::decode_to_vec(b"00ff").unwrap(), [0, 255]);
        })
    }).collect();
    for h in hs { h.join().unwrap(); }
}
fn main() {
    if std::env::args().nth(1).is_some() { return child(); }
    let me = std::env::current_exe().unwrap();
    for i in 0..3000 {
        let s = std::process::Command::new(&me).arg("x").stderr(std::process::Stdio::null()).status().unwrap();
        assert!(s.success(), "run {i}: {s}");
    }
}
''', "two threads making the first call of one operation within a few hundred nanoseconds",
     "a second caller sees the flag before the pointer and jumps to null")

seed("forgiving-vec-capacity", "C16",
     [(C + "base64-simd/src/forgiving.rs", "let mut vec = Vec::with_capacity(data.len());",
       "let mut vec = Vec::with_capacity(STANDARD_FORGIVING.estimated_decoded_length(data.len()));")],
     B64, r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
struct A;
static BAD: AtomicBool = AtomicBool::new(false);
const C: usize = 64;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + C, l.align()));
        if !p.is_null() { std::ptr::write_bytes(p.add(l.size()), 0xC7, C); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        for i in 0..C { if *p.add(l.size() + i) != 0xC7 { BAD.store(true, SeqCst); } }
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + C, l.align()));
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    for n in [40usize, 100, 200] {
        let mut t = vec![b'A'; n];
        t[n / 2] = b' ';
        t.extend_from_slice(b"A");
        let r = base64_simd::forgiving_decode_to_vec(&t);
        assert!(r.is_ok());
        drop(r);
        assert!(!BAD.load(SeqCst), "wrote past the allocation ({n})");
    }
}
''', "an allocating forgiving decode of a text with few white-space characters",
     "the compacted text is written past the end of a too small heap allocation")

seed("hex-inplace-odd", "C17",
     [(C + "hex-simd/src/lib.rs", "pub fn decode_inplace(data: &mut [u8]) -> Result<&mut [u8], Error> {\n    ensure!(data.len() % 2 == 0);\n    unsafe {\n        let len = data.len();",
       "pub fn decode_inplace(data: &mut [u8]) -> Result<&mut [u8], Error> {\n    ensure!(data.len() != 1);\n    unsafe {\n        let len = data.len() & !1;")],
     HEX, r'''
fn main() {
    for n in 0..70usize {
        let mut d = vec![b'7'; n];
        let ok = hex_simd::decode_inplace(&mut d).is_ok();
        assert_eq!(ok, n % 2 == 0, "{n}");
    }
}
''', "in-place decoding of an odd number of digits (at least three)",
     "hex decode_inplace ignores the last digit where decode reports an error")

seed("b32-append-reserve", "C18",
     [(C + "base32-simd/src/heap.rs",
       "    let (n, m) = decoded_length(src, base32.padding)?;\n\n    buf.reserve_exact(m);\n    let prev_len = buf.len();",
       "    let (n, m) = decoded_length(src, base32.padding)?;\n\n    let prev_len = buf.len();\n    buf.resize(prev_len + m, 0);")],
     B32, r'''
fn main() {
    let mut v = b"keep".to_vec();
    assert!(base32_simd::BASE32.decode_append("AAAAAAA!", &mut v).is_err());
    assert_eq!(v, b"keep");
}
''', "an appending decode that fails on content (not on length)",
     "a failed Base32 append leaves zero bytes behind in the Vec")

seed("hex-short-wide-store", "C19",
     [(C + "hex-simd/src/encode.rs",
       "    let charset = charset(case).as_ptr();\n    encode_short(src, len, dst, charset);\n}\n\n#[inline(always)]\npub unsafe fn encode_simd_sse2",
       """    let charset = charset(case).as_ptr();
    if len == 15 {
        // one store for the last two digits of the tail
        encode_short(src, 14, dst, charset);
        let x = src.add(14).read();
        let hi = read(charset, (x >> 4) as usize);
        let lo = read(charset, (x & 0x0f) as usize);
        dst.add(28).cast::<[u8; 4]>().write([hi, lo, 0, 0]);
        return;
    }
    encode_short(src, len, dst, charset);
}

#[inline(always)]
pub unsafe fn encode_simd_sse2""")],
     [nd(HEX)], r'''
use hex_simd::{AsOut, AsciiCase};
fn main() {
    for n in 0..70usize {
        let src = vec![0x5a; n];
        let mut dst = vec![0xEEu8; 2 * n + 16];
        let m = hex_simd::encode(&src, dst.as_mut_slice().as_out(), AsciiCase::Lower).unwrap().len();
        assert_eq!(m, 2 * n);
        assert!(dst[2 * n..].iter().all(|&b| b == 0xEE), "{n}");
    }
}
''', "SSSE3 or SSE4.1 execution without AVX2; source length 15 modulo 16",
     "hex encoding overwrites two destination bytes after the result",
     rustflags="-C target-feature=+ssse3")

seed("par-chunk-cap", "C20",
     [(C + "base64-simd/src/parallel.rs", "let chunks = (b + p) / p;",
       "// keep a chunk within the L2 cache\n        let chunks = ((b + p) / p).min(1 << 16);"),
      (C + "base64-simd/src/parallel.rs", "let src_chunks = src.par_chunks(chunks * 3);",
       "let src_chunks = src.par_chunks((chunks * 3).min(1 << 17));")],
     'base64-simd = { path = "@base64-simd", features = ["parallel", "unstable"] }\nrayon = "1"', r'''
use base64_simd::{AsOut, STANDARD};
fn main() {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap();
    for n in [10_000usize, 200_000, 262_143, 300_001] {
        let src: Vec<u8> = (0..n).map(|i| (i * 31 % 251) as u8).collect();
        let want = STANDARD.encode_to_string(&src);
        let mut dst = vec![0u8; want.len()];
        let got = pool.install(|| STANDARD.par_encode(&src, dst.as_mut_slice().as_out()).unwrap().to_vec());
        assert!(got == want.as_bytes(), "{n}");
    }
}
''', "parallel encoding of more than 128 KiB per pool thread",
     "large sources are split at offsets that are not multiples of three, so the text is wrong",
     toolchain="+nightly-2025-06-20")

seed("sse2-u16-lt-signed", "C21",
     [(C + "vsimd/src/unified.rs",
       "                    let m = _mm_set1_epi16(i16::MIN);\n                    let a = _mm_xor_si128(tc(&a), m);\n                    let b = _mm_xor_si128(tc(&b), m);\n                    tc(&_mm_cmplt_epi16(a, b))",
       "                    let d = _mm_subs_epu16(tc(&b), tc(&a));\n                    tc(&_mm_cmpgt_epi16(d, _mm_setzero_si128()))")],
     'vsimd = { path = "@vsimd", features = ["std"] }', r'''
use vsimd::isa::{InstructionSet, SSE2};
use vsimd::SIMD128;
use vsimd::vector::V128;
fn main() {
    let s = unsafe { SSE2::new() };
    let p = |x: u16| V128::from_bytes(unsafe { core::mem::transmute([x; 8]) });
    for a in (0..=65535u16).step_by(257) {
        for b in (0..=65535u16).step_by(257) {
            let r = s.u16x8_bitmask_(a, b, &p);
            assert_eq!(r, a < b, "{a} {b}");
        }
    }
}
trait T { fn u16x8_bitmask_(self, a: u16, b: u16, p: &dyn Fn(u16) -> V128) -> bool; }
impl T for SSE2 {
    fn u16x8_bitmask_(self, a: u16, b: u16, p: &dyn Fn(u16) -> V128) -> bool {
        self.u8x16_bitmask(self.u16x8_lt(p(a), p(b))) == 0xffff
    }
}
''', "SSE2 unsigned 16-bit less-than with lanes more than 32767 apart",
     "u16x8_lt answers false for lanes where b - a exceeds 32767")

seed("utf32-checked-sub", "C22",
     [(C + "unicode-simd/src/utf32.rs", "(x ^ 0xD800).wrapping_sub(0x800) < (0x11_0000 - 0x800)",
       "(x ^ 0xD800) - 0x800 < (0x11_0000 - 0x800)")],
     UNI, r'''
fn main() {
    assert!(unicode_simd::is_utf32le(&[0x41]));
    assert!(!unicode_simd::is_utf32le(&[0xD800]));
    assert!(!unicode_simd::is_utf32le(&[0x41, 0xDFFF]));
}
''', "a build with overflow checks; a surrogate in the scalar part",
     "the UTF-32 check panics instead of answering false when overflow checks are on",
     profile="overflow-checks = true")

seed("b64-tail-xor", "C02",
     [(C + "base64-simd/src/decode.rs", "ensure!((y1 | y2 | y3) != 0xff && (forgiving || (y3 & 0x03) == 0));",
       "ensure!((y1 ^ y2 ^ y3) < 0x40 && (forgiving || (y3 & 0x03) == 0));")],
     B64, r'''
fn main() {
    for t in ["##A=", "QUJD##A=", "?QUE", "\u{1}\u{2}Q="] {
        assert!(base64_simd::STANDARD.decode_to_vec(t).is_err(), "{t:?}");
        assert!(base64_simd::STANDARD_NO_PAD.decode_to_vec(t.trim_end_matches('=')).is_err(), "{t:?}");
    }
}
''', "two characters outside the alphabet in the same incomplete group of three",
     "the two invalid characters cancel and the text is decoded")

seed("utf32-or", "C12",
     [(C + "unicode-simd/src/utf32.rs", "y = s.u32x8_max(y, a2);", "y = s.v256_or(y, a2);")],
     UNI, r'''
fn main() {
    let mut t = vec![0x10_F0FFu32; 16];
    t[8..].fill(0xF_FFFF);
    assert!(t.iter().all(|c| char::from_u32(*c).is_some()));
    assert!(unicode_simd::is_utf32le(&t));
}
''', "valid code points of plane 16 and of plane 15 in the same lane of different vectors",
     "valid UTF-32 text is rejected")

seed("dispatch-late-store", "C15",
     [(C + "vsimd/src/macros.rs", "use core::sync::atomic::{AtomicPtr, Ordering::Relaxed};",
       "use core::sync::atomic::{AtomicBool, AtomicPtr, Ordering::{AcqRel, Acquire, Relaxed}};\n\n                static READY: AtomicBool = AtomicBool::new(false);"),
      (C + "vsimd/src/macros.rs", "AtomicPtr::new(init_ifunc as *mut ());", "AtomicPtr::new(core::ptr::null_mut());"),
      (C + "vsimd/src/macros.rs", '''                unsafe fn init_ifunc($($arg_name: $arg_type),*) -> $ret {
                    let f = resolve();
                    IFUNC.store(f as *mut (), Relaxed);
                    f($($arg_name),*)
                }''', '''                fn init_ifunc() {
                    let f = resolve();
                    // the first one publishes
                    if !READY.swap(true, AcqRel) {
                        IFUNC.store(f as *mut (), Relaxed);
                    }
                }'''),
      (C + "vsimd/src/macros.rs", '''                    let f: unsafe fn($($arg_type),*) -> $ret = core::mem::transmute(IFUNC.load(Relaxed));
                    f($($arg_name),*)
                }''', '''                    if !READY.load(Acquire) {
                        init_ifunc();
                    }
                    let f: unsafe fn($($arg_type),*) -> $ret = core::mem::transmute(IFUNC.load(Relaxed));
                    f($($arg_name),*)
                }''')],
     [B64, B32, HEX], r'''
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};
fn child() {
    static AT: AtomicUsize = AtomicUsize::new(0);
    let n = 8;
    let ts: Vec<_> = (0..n).map(|i| std::thread::spawn(move || {
        let s = b"MFRGGZDFMZTWQ2LKNNWG23TPOBYXE43U";
        for k in 0..6 {
            AT.fetch_add(1, SeqCst);
            while AT.load(SeqCst) < n * (k + 1) {
                std::hint::spin_loop();
            }
            for _ in 0..i * 3 {
                std::hint::spin_loop();
            }
            match k {
                0 => assert_eq!(base64_simd::STANDARD.encode_to_string(&s[..3]), "TUZS"),
                1 => assert!(base64_simd::STANDARD.check(&s[..32]).is_ok()),
                2 => assert_eq!(base64_simd::STANDARD.decode_to_vec(b"TUZS").unwrap(), &s[..3]),
                3 => assert!(base32_simd::BASE32.check(s).is_ok()),
                4 => assert_eq!(hex_simd::decode_to_vec(b"4d46").unwrap(), &s[..2]),
                _ => assert_eq!(hex_simd::encode_to_string(&s[..2], hex_simd::AsciiCase::Lower), "4d46"),
            }
        }
    })).collect();
    for t in ts {
        t.join().unwrap();
    }
}
fn main() {
    if std::env::args().nth(1).is_some() {
        return child();
    }
    let me = std::env::current_exe().unwrap();
    let end = Instant::now() + Duration::from_secs(100);
    while Instant::now() < end {
        let st = std::process::Command::new(&me).arg("c").status().unwrap();
        assert!(st.success(), "a racing first call failed: {st}");
    }
}
''', "a thread that makes its first call between another thread's claim and its publication",
     "the second thread calls through a null function pointer")

seed("b32-encode-overread", "C16",
     [(C + "base32-simd/src/encode.rs", "        while len >= (20 + 6) {", "        while len > (20 + 4) {")],
     B32, r'''
use std::ffi::c_void;
extern "C" {
    fn mmap(a: *mut c_void, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void;
    fn mprotect(a: *mut c_void, l: usize, p: i32) -> i32;
}
fn main() {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0) as *mut u8;
        assert_eq!(mprotect(p.add(4096).cast(), 4096, 0), 0);
        for n in 1..400 {
            let src = std::slice::from_raw_parts(p.add(4096 - n), n);
            let t = base32_simd::BASE32.encode_to_string(src);
            assert_eq!(t.len(), (n + 4) / 5 * 8);
        }
    }
}
''', "a source of 35 + 20 k bytes that ends at the end of its memory",
     "the vector encoder reads one byte past the end of the source")

seed("forgiving-speculative-copy", "C17",
     [(C + "base64-simd/src/ascii.rs", '''    let end = src.add(len);
    while src < end {
        let x = src.read();
        if lookup_ascii_whitespace(x) == 0 {
            dst.write(x);''', '''    let end = src.add(len);

    // copy words ahead and go back to single bytes where one has white space in it
    let words = src.add(len / 8 * 8);
    while src < words {
        let x = src.cast::<u64>().read_unaligned();
        dst.cast::<u64>().write_unaligned(x);
        if x.to_le_bytes().iter().any(|&b| lookup_ascii_whitespace(b) != 0) {
            let mut i = 0;
            while i < 8 {
                let b = src.add(i).read();
                if lookup_ascii_whitespace(b) == 0 {
                    dst.write(b);
                    dst = dst.add(1);
                }
                i += 1;
            }
        } else {
            dst = dst.add(8);
        }
        src = src.add(8);
    }

    while src < end {
        let x = src.read();
        if lookup_ascii_whitespace(x) == 0 {
            dst.write(x);''')],
     B64, r'''
fn main() {
    for t in ["ABCD\nEFGHIJKL\nMNOPQRST\nUVWXYZabcdef\nghijklmn", "QUJDREVG R0hJSktM TU5PUFFS U1RVVldY"] {
        let want = base64_simd::forgiving_decode_to_vec(t.as_bytes());
        let mut plain: String = t.chars().filter(|c| !c.is_ascii_whitespace()).collect();
        let want2 = base64_simd::forgiving_decode_to_vec(plain.as_bytes());
        assert_eq!(want.is_ok(), want2.is_ok());
        let mut m = t.as_bytes().to_vec();
        let got = base64_simd::forgiving_decode_inplace(&mut m);
        assert_eq!(got.map(|x| x.to_vec()).ok(), want2.ok(), "{t:?}");
        plain.clear();
    }
}
''', "white space in a word of eight characters behind an earlier white space character, decoded in place",
     "removing white space in place overwrites characters it has not read yet")

seed("hex-append-spare", "C18",
     [(C + "hex-simd/src/heap.rs", '''        buf.reserve_exact(m);
        let prev_len = buf.len();

        let (src, len) = slice_parts(src);
        let dst = buf.as_mut_ptr().add(prev_len);
        crate::multiversion::encode::auto''', '''        // only what the spare room does not hold
        buf.reserve_exact(m.saturating_sub(buf.capacity() - buf.len()));
        let prev_len = buf.len();

        let (src, len) = slice_parts(src);
        let dst = buf.as_mut_ptr().add(prev_len);
        crate::multiversion::encode::auto''')],
     HEX, r'''
fn main() {
    for (cap, old, n) in [(0usize, 0usize, 9usize), (40, 0, 30), (64, 20, 40), (100, 10, 80)] {
        let mut v: Vec<u8> = Vec::with_capacity(cap);
        v.resize(old, 7);
        let src = vec![0xAB; n];
        hex_simd::encode_append(&src, &mut v, hex_simd::AsciiCase::Lower);
        assert!(v.len() <= v.capacity(), "{} bytes in room for {}", v.len(), v.capacity());
        assert_eq!(v.len(), old + 2 * n);
    }
}
''', "appending to a vector whose spare capacity is more than half of what the text needs, but not all of it",
     "the text is written past the end of the vector's allocation")

seed("uuid-hyphen-and", "C09",
     [(C + "uuid-simd/src/parse.rs", '''    match [read(src, 8), read(src, 13), read(src, 18), read(src, 23)] {
        [b'-', b'-', b'-', b'-'] => {}
        _ => return Err(Error::new()),
    }

    const SWIZZLE''', '''    let hyphens = read(src, 8) & read(src, 13) & read(src, 18) & read(src, 23);
    ensure!(hyphens == b'-');

    const SWIZZLE''')],
     UUID, r'''
use uuid_simd::UuidExt;
fn main() {
    let good = "67e55044-10b1-426f-9247-bb680e5fe0c8";
    assert!(<uuid::Uuid as UuidExt>::parse_hyphenated(good.as_bytes()).is_ok());
    for (i, c) in [(8, '/'), (13, '}'), (18, 'o'), (23, 'm')] {
        let mut t: Vec<u8> = good.bytes().collect();
        t[i] = c as u8;
        assert!(<uuid::Uuid as UuidExt>::parse_hyphenated(&t[..]).is_err(), "{i} {c}");
    }
}
''', "a separator with all the bits of '-' and others (such as '/') while another separator is '-'",
     "texts with other separators than hyphens are parsed as hyphenated UUIDs")

seed("hex-check-xor", "C07",
     [(C + "hex-simd/src/check.rs", "        flag |= unhex(x);\n", "        flag ^= unhex(x);\n"),
      (C + "hex-simd/src/check.rs", "    ensure!(flag != 0xff);\n    Ok(())\n}\n\n/// FIXME", "    ensure!(flag < 0x10);\n    Ok(())\n}\n\n/// FIXME")],
     [nd(HEX)], r'''
fn main() {
    for t in ["zz", "0123456789abcdefxx", "g0g1"] {
        assert!(hex_simd::check(t.as_bytes()).is_err(), "{t}");
    }
}
''', "an even number of characters that are no hexadecimal digits in the scalar part, without AVX2",
     "the check accepts texts that decoding rejects")

seed("b32-blend-sse41", "C05",
     [(C + "base32-simd/src/decode.rs", "simd256_vop!(s, S::u16x8_blend::<0x33>, a, b)", "simd256_vop!(s, S::u16x8_blend::<0xCC>, a, b)")],
     [nd(B32)], r'''
fn main() {
    let src: Vec<u8> = (0..100u8).map(|i| i.wrapping_mul(37) ^ 0x5a).collect();
    for n in 0..100 {
        let t = base32_simd::BASE32.encode_to_string(&src[..n]);
        assert_eq!(base32_simd::BASE32.decode_to_vec(&t).unwrap(), &src[..n], "{n}");
    }
}
''', "an execution with SSE4.1 and without AVX2; at least 42 characters",
     "Base32 decoding yields wrong bytes", rustflags="-C target-feature=+sse4.1")

seed("ascii-u32-blocks", "C11",
     [(C + "unicode-simd/src/ascii.rs", "        let end = src.add(len / 64 * 64);\n        while src < end {\n            let x: [__m128i; 4] = loadu(src);\n            ensure!(check16(or(or(x[0], x[1]), or(x[2], x[3]))));\n            src = src.add(64);\n        }",
       "        for _ in 0..(len as u32) / 64 {\n            let x: [__m128i; 4] = loadu(src);\n            ensure!(check16(or(or(x[0], x[1]), or(x[2], x[3]))));\n            src = src.add(64);\n        }")],
     UNI, r'''
fn main() {
    let n = (1usize << 32) + 100;
    let mut v = vec![0u8; n];
    assert!(unicode_simd::is_ascii(&v));
    v[n - 40] = 0x80;
    assert!(!unicode_simd::is_ascii(&v));
}
''', "a text of more than 4 GiB", "only the first (length modulo 4 GiB) bytes and the wrong tail are examined")

seed("b64-enc-u32-src", "C01",
     [(C + "base64-simd/src/encode.rs", "    mut src: *const u8,\n    mut len: usize,\n    mut dst: *mut u8,\n    config: Config,\n) {\n    let kind = config.kind;\n\n    if len >= (6 + 24 + 4) {",
       "    mut src: *const u8,\n    mut len: usize,\n    mut dst: *mut u8,\n    config: Config,\n) {\n    let kind = config.kind;\n\n    if len as u32 >= (6 + 24 + 4) && kind == Kind::Standard || len >= (6 + 24 + 4 + 24) {")],
     B64, r'''
fn main() {
    let src: Vec<u8> = (0..100u8).collect();
    for n in 0..100 {
        let t = base64_simd::URL_SAFE.encode_to_string(&src[..n]);
        assert_eq!(base64_simd::URL_SAFE.decode_to_vec(&t).unwrap(), &src[..n], "{n}");
    }
}
''', "-", "-")

seed("par-dst-exact", "C20",
     [(C + "base64-simd/src/parallel.rs", "        let chunks = (b + p) / p;\n", "        let chunks = (b + p - 1) / p;\n"),
      (C + "base64-simd/src/parallel.rs", "let dst = &mut dst[..encoded_len];", "let dst = &mut dst[..encoded_len];\n        let tail = src.len() % 3;"),
      (C + "base64-simd/src/parallel.rs", "            src_chunks.zip(dst_chunks).for_each(|(s, d)| unsafe {\n                let len = s.len();\n                let sp = s.as_ptr();\n                let dp = d.as_mut_ptr().cast::<u8>();\n                crate::multiversion::encode::auto(sp, len, dp, self.config);",
       "            src_chunks.zip(dst_chunks).for_each(|(s, d)| unsafe {\n                let len = if d.len() == chunks * 4 && s.len() > tail { s.len() } else { s.len() - s.len() % 3 + tail };\n                let sp = s.as_ptr();\n                let dp = d.as_mut_ptr().cast::<u8>();\n                crate::multiversion::encode::auto(sp, len, dp, self.config);")],
     'base64-simd = { path = "@base64-simd", features = ["parallel", "unstable"] }\nrayon = "1"', r'''
fn main() {}
''', "-", "-", toolchain="+nightly-2025-06-20")
del SEEDS["b64-enc-u32-src"], SEEDS["par-dst-exact"]

seed("hex-decode-tail-first", "C17",
     [(C + "hex-simd/src/decode.rs", "    if len >= 32 {\n        decode32(s, src, dst)?;\n        src = src.add(32);\n        dst = dst.add(16);\n        len -= 32;\n    }\n\n    if len >= 16 {",
       "    if len >= 48 {\n        // both blocks, the later one first: its digits are still in the cache\n        decode16(s, src.add(32), dst.add(16))?;\n        decode32(s, src, dst)?;\n        return decode_short::<S>(src.add(48), len - 48, dst.add(24));\n    }\n\n    if len >= 32 {\n        decode32(s, src, dst)?;\n        src = src.add(32);\n        dst = dst.add(16);\n        len -= 32;\n    }\n\n    if len >= 16 {")],
     HEX, r'''
fn main() {
    for n in (48..64).step_by(2) {
        let text: Vec<u8> = (0..n).map(|i| b"0123456789abcdef"[(i * 7 + i / 16) % 16]).collect();
        let want = hex_simd::decode_to_vec(&text).unwrap();
        let mut buf = text.clone();
        assert_eq!(hex_simd::decode_inplace(&mut buf).unwrap(), &want[..], "{n}");
    }
}
''', "in-place decoding with AVX2 of a text of 48 to 63 digits modulo 64, shorter than 64", "in-place decoding reads digits that were already overwritten")

seed("b64-enc-ssse3-overread", "C16",
     [(C + "base64-simd/src/encode.rs", "    if len >= 12 + 4 {", "    if len >= if matches_isa!(S, SSE41) { 12 + 4 } else { 12 } {"),
      (C + "base64-simd/src/encode.rs", "use vsimd::isa::{NEON, SSE2, WASM128};", "use vsimd::isa::{NEON, SSE2, SSE41, WASM128};")],
     [nd(B64)], r'''
extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}
fn main() {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        assert_eq!(mprotect(p.add(4096), 4096, 0), 0);
        for n in 0..100 {
            let s = std::slice::from_raw_parts(p.add(4096 - n), n);
            assert_eq!(base64_simd::STANDARD.encode_to_string(s).len(), (n + 2) / 3 * 4);
        }
    }
}
''', "an execution with SSSE3 and without SSE4.1; 12 to 15 bytes left at the end of readable memory", "encoding reads up to four bytes behind the source",
     rustflags="-C target-feature=+ssse3")

seed("ascii-align-prefix", "C11",
     [(C + "unicode-simd/src/ascii.rs", "        let end = src.add(len / 64 * 64);\n        while src < end {\n            let x: [__m128i; 4] = loadu(src);",
       "        // start at an aligned address\n        ensure!(check8(loadu(src)));\n        let skip = (src as usize).wrapping_neg() % 16;\n        src = src.add(skip);\n        len -= skip;\n        let end = src.add(len / 64 * 64);\n        while src < end {\n            let x: [__m128i; 4] = loadu(src);")],
     UNI, r'''
fn main() {
    let mut v = vec![b'a'; 512];
    for at in 0..400 {
        v[at] = 0xff;
        for from in 0..32.min(at + 1) {
            assert!(!unicode_simd::is_ascii(&v[from..]), "{at} {from}");
        }
        v[at] = b'a';
    }
}
''', "a text of at least 64 bytes that starts 1 to 7 bytes after a multiple of 16, with its only non-ASCII bytes at positions 8 to 14", "the bytes between the first eight and the aligned address are skipped")

seed("hex-length-limit", "C08",
     [(C + "hex-simd/src/lib.rs", "    assert!(n <= usize::MAX / 2);", "    assert!(n < usize::MAX / 2);")],
     HEX, r'''
fn main() {
    assert_eq!(hex_simd::encoded_length(usize::MAX / 2), usize::MAX - 1);
}
''', "n exactly usize::MAX / 2", "the documented largest argument panics")

seed("be-swap-bytes", "C22",
     [(C + "base64-simd/src/decode.rs", "dst.cast::<u64>().write_unaligned(y.to_be());", "dst.cast::<u64>().write_unaligned(y.swap_bytes());")],
     B64, r'''
fn main() {
    let t = "QUJDREVGR0hJSktMTU5PUA==";
    assert_eq!(base64_simd::STANDARD.decode_to_vec(t).unwrap(), b"ABCDEFGHIJKLMNOP");
}
''', "a big-endian target; a text of at least 11 characters", "decoded bytes come out reversed in groups of eight on big-endian machines", miri="s390x-unknown-linux-gnu")

seed("forgiving-ensure-late", "C19",
     [(C + "base64-simd/src/forgiving.rs", "    ensure!(src.len() <= dst.len());\n\n    let pos = find_non_ascii_whitespace(src);", "    let pos = find_non_ascii_whitespace(src);"),
      (C + "base64-simd/src/forgiving.rs", "    if pos == src.len() {\n        return STANDARD_FORGIVING.decode(src, dst);\n    }\n", "    if pos == src.len() {\n        return STANDARD_FORGIVING.decode(src, dst);\n    }\n    ensure!(src.len() <= dst.len());\n")],
     B64, r'''
use base64_simd::AsOut;
fn main() {
    let mut d = [0u8; 7];
    assert!(base64_simd::forgiving_decode(b"QUJDREVG", d[..].as_out()).is_err());
}
''', "forgiving decoding without white space into a destination shorter than the source that still holds the result", "the documented error for a destination shorter than the source is not returned")

seed("par-uneven-chunk", "C20",
     [(C + "base64-simd/src/parallel.rs", "        let chunks = (b + p) / p;\n", "        // no more chunks than threads, the last one no longer than the others\n        let chunks = if b % p == 0 { b / p } else { b / p + 1 };\n"),
      (C + "base64-simd/src/parallel.rs", "                if len % 3 == 0 {\n                    crate::multiversion::encode::auto(sp, len, dp, no_pad);",
       "                if d.len() == chunks * 4 {\n                    crate::multiversion::encode::auto(sp, len, dp, no_pad);")],
     'base64-simd = { path = "@base64-simd", features = ["parallel", "unstable"] }\nrayon = "1"', r'''
use base64_simd::AsOut;
fn main() {
    let p = rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap();
    for n in 8192..8220usize {
        let src: Vec<u8> = (0..n).map(|i| (i * 31 + i / 256) as u8).collect();
        for e in [base64_simd::STANDARD, base64_simd::STANDARD_NO_PAD] {
            let want = e.encode_to_string(&src);
            let mut d = vec![0u8; want.len()];
            let got = p.install(|| e.par_encode(&src, d.as_out()).unwrap().to_vec());
            assert!(got == want.as_bytes(), "{n}");
        }
    }
}
''', "a padded variant and a length for which the padded last chunk is as long as the others", "the padding characters of a full-size last chunk are left out (or stale)", toolchain="+nightly-2025-06-20")

seed("utf16-inplace-pairs", "C13",
     [(C + "vsimd/src/bswap.rs", "    len %= T::LANES;\n\n    bswap_fallback(src, len, dst);",
       "    len %= T::LANES;\n\n    // a long rest: one more vector, over the units before it\n    if len > T::LANES / 2 && !core::ptr::eq(src, dst) && (dst as usize) & 31 == 0 {\n        let x = s.v256_load_unaligned(src.sub(T::LANES - len).cast());\n        s.v256_store_unaligned(dst.sub(T::LANES - len).cast(), <T as BSwap>::swap_simd(s, x));\n        return;\n    }\n\n    bswap_fallback(src, len, dst);")],
     UNI, r'''
use unicode_simd::AsOut;
fn main() {
    #[repr(align(32))]
    struct A([u16; 64]);
    let src: Vec<u16> = (0..64u16).map(|i| i * 257 + 1).collect();
    for n in 0..32 {
        let mut d = A([0xabcd; 64]);
        unicode_simd::utf16_swap_endianness(&src[16..16 + n], d.0[16..].as_out());
        assert!(d.0[..16].iter().all(|x| *x == 0xabcd), "{n}");
        for i in 0..n {
            assert_eq!(d.0[16 + i], src[16 + i].swap_bytes());
        }
    }
}
''', "fewer units than a vector but more than half of one, a destination aligned to 32 bytes", "units before the destination are overwritten")


seed("neon-highbit-any", "C21",
     [(C + "vsimd/src/mask.rs", "            return s.u8x16_reduce_max(x) >= 0x80;", "            return s.u8x16_reduce_max(x) > 0x80;")],
     'vsimd = { path = "@vsimd" }', r'''
#[cfg(target_arch = "aarch64")]
fn main() {
    use vsimd::isa::{InstructionSet, NEON};
    let s = unsafe { NEON::new() };
    for at in 0..16 {
        let mut b = [0u8; 16];
        b[at] = 0x80;
        assert!(vsimd::mask::u8x16_highbit_any(s, vsimd::vector::V128::from_bytes(b)));
    }
}
#[cfg(not(target_arch = "aarch64"))]
fn main() {}
''', "NEON; no byte above 0x80 and some equal to it", "the any-high-bit test misses bytes equal to 0x80 on NEON", miri="aarch64-unknown-linux-gnu")

seed("forgiving-tail-after-break", "C03",
     [(C + "base64-simd/src/ascii.rs", "            let x = s.v128_load_unaligned(src);\n            if has_ascii_whitespace(s, x).not() {\n                src = src.add(16);\n            }",
       "            // the rest in two overlapping halves\n            let x = s.v128_load_unaligned(src);\n            let y = s.v128_load_unaligned(base.add(len - 16));\n            if has_ascii_whitespace(s, x).not() {\n                src = src.add(16);\n                if has_ascii_whitespace(s, y).not() {\n                    src = base.add(len);\n                }\n            }")],
     B64, r'''
fn main() {
    for n in (0..200usize).step_by(4) {
        for at in 0..=n {
            let mut t = vec![b'A'; n];
            t.insert(at, b'\n');
            let r = base64_simd::forgiving_decode_to_vec(&t).expect("valid");
            assert_eq!(r.len(), n / 4 * 3);
        }
    }
}
''', "AVX2; the first white space in the second half of a 32-byte block, at least 16 bytes after the last whole block and none among them", "white space is overlooked and valid text rejected")

seed("b32-encode-lanes-sse41", "C04",
     [(C + "base32-simd/src/encode.rs", "            let x = s.v256_load_unaligned(src.sub(6));\n            let y = encode_bytes20(s, x, encoding_lut);",
       "            // two loads of 16 bytes where there are no wide registers\n            let x = if matches_isa!(S, AVX2) {\n                s.v256_load_unaligned(src.sub(6))\n            } else {\n                V256::from_v128x2((s.v128_load_unaligned(src.sub(6)), s.v128_load_unaligned(src.add(len.min(42) - 32))))\n            };\n            let y = encode_bytes20(s, x, encoding_lut);"),
      (C + "base32-simd/src/encode.rs", "use vsimd::isa::{NEON,", "use vsimd::isa::{AVX2, NEON,"),
      (C + "base32-simd/src/encode.rs", "use vsimd::{matches_isa, SIMD256};", "use vsimd::{matches_isa, SIMD256};\n#[allow(unused_imports)]\nuse vsimd::SIMD128;")],
     [nd(B32)], r'''
fn main() {
    for n in 0..300usize {
        let src: Vec<u8> = (0..n).map(|i| (i * 37 + 11) as u8).collect();
        let t = base32_simd::BASE32.encode_to_string(&src);
        assert_eq!(base32_simd::BASE32.decode_to_vec(&t).unwrap(), src, "{n}");
    }
}
''', "an execution with SSE4.1 and without AVX2; a last vector with fewer than 42 bytes left", "the upper half of the last vector is read from the wrong position",
     rustflags="-C target-feature=+sse4.1")

seed("uuid-display-pad", "C10",
     [(C + "uuid-simd/src/ext.rs", "            format_uuid(self.0, case, crate::format_hyphenated, |s| {\n                <str as fmt::Display>::fmt(s, f)\n            })\n        }\n    }\n}\n\nimpl fmt::UpperHex for Simple<'_> {",
       "            format_uuid(self.0, case, crate::format_hyphenated, |s| {\n                if f.width().is_none() {\n                    f.write_str(s)\n                } else {\n                    <str as fmt::Display>::fmt(s, f)\n                }\n            })\n        }\n    }\n}\n\nimpl fmt::UpperHex for Simple<'_> {")],
     'uuid-simd = { path = "@uuid-simd", features = ["uuid"] }\nuuid = "1"', r'''
use uuid_simd::UuidExt;
fn main() {
    let u = uuid::Uuid::from_u128(0x67e5504410b1426f9247bb680e5fe0c8);
    assert_eq!(format!("{:.8}", u.format_hyphenated()), "67e55044");
    assert_eq!(format!("{:.8}", u.format_simple()), "67e55044");
}
''', "a precision without a width", "the precision is ignored by the hyphenated adapter")

seed("b32-check-overlap", "C07",
     [(C + "base32-simd/src/check.rs", "    len %= 32;\n\n    check_fallback(src, len, kind)",
       "    // a long rest: one more vector, over characters already seen\n    let rest = len % 32;\n    if rest >= 16 && len > 32 {\n        let x = s.v256_load_unaligned(src.add(rest).sub(32));\n        ensure!(check_ascii32(s, x, check_lut));\n        return Ok(());\n    }\n    len = rest;\n\n    check_fallback(src, len, kind)")],
     B32, r'''
fn main() {
    for n in 1..200usize {
        let mut t = base32_simd::BASE32_NO_PAD.encode_to_string(vec![0xa5u8; n]).into_bytes();
        for last in *b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567" {
            *t.last_mut().unwrap() = last;
            let d = base32_simd::BASE32_NO_PAD.decode_to_vec(&t).is_ok();
            assert_eq!(d, base32_simd::BASE32_NO_PAD.check(&t).is_ok(), "{n} {}", last as char);
        }
    }
}
''', "unpadded Base32 text of more than 32 characters with 16 or more left over, whose last symbol carries nonzero unused bits", "the check accepts what decoding rejects")

seed("b64-inplace-overlap", "C17",
     [(C + "base64-simd/src/decode.rs", "    decode_fallback(src, dst, n, config)\n}\n\n#[inline(always)]\nfn merge_bits_x2",
       "    // the rest with one more vector, over characters already decoded\n    if whole > n && n >= 32 && n < 36 {\n        let x = s.v256_load_unaligned(src.sub(8));\n        let y = try_!(decode_ascii32(s, x, check_lut, decode_lut));\n        let (y1, y2) = y.to_v128x2();\n        s.v128_store_unaligned(dst.sub(6), y1);\n        s.v128_store_unaligned(dst.add(6), y2);\n        src = src.add(24);\n        dst = dst.add(18);\n        n -= 24;\n    }\n\n    decode_fallback(src, dst, n, config)\n}\n\n#[inline(always)]\nfn merge_bits_x2"),
      (C + "base64-simd/src/decode.rs", "    // n*3/4 >= 24+4\n    while n >= 38 {", "    let whole = n;\n\n    // n*3/4 >= 24+4\n    while n >= 38 {")],
     B64, r'''
fn main() {
    for n in 0..200usize {
        let src: Vec<u8> = (0..n).map(|i| (i * 37 + 11) as u8).collect();
        let mut t = base64_simd::STANDARD.encode_to_string(&src).into_bytes();
        assert_eq!(base64_simd::STANDARD.decode_inplace(&mut t).unwrap(), &src[..], "{n}");
    }
}
''', "in-place decoding of 64 to 67 characters", "characters already overwritten by the result are decoded again")

seed("b64-enc-x1-threshold", "C01",
     [(C + "base64-simd/src/encode.rs", "    if len >= 12 + 4 {\n", "    // twice without wide registers\n    let twice = !matches_isa!(S, AVX2) && len >= 24 + 4;\n    if twice {\n        let shift_lut = match kind {\n            Kind::Standard => STANDARD_ENCODING_SHIFT,\n            Kind::UrlSafe => STANDARD_ENCODING_SHIFT,\n        };\n        let y = encode_bytes12(s, s.v128_load_unaligned(src), shift_lut);\n        s.v128_store_unaligned(dst, y);\n        src = src.add(12);\n        dst = dst.add(16);\n        len -= 12;\n    }\n\n    if len >= 12 + 4 {\n"),
      (C + "base64-simd/src/encode.rs", "use vsimd::isa::{NEON, SSE2, WASM128};", "use vsimd::isa::{AVX2, NEON, SSE2, WASM128};")],
     [nd(B64)], r'''
fn main() {
    for n in 0..200usize {
        let src: Vec<u8> = (0..n).map(|i| (i * 83 + 11) as u8 | 0x3f).collect();
        let t = base64_simd::URL_SAFE.encode_to_string(&src);
        assert!(!t.contains(['+', '/']), "{n} {t}");
    }
}
''', "an execution with SSSE3 or SSE4.1 and without AVX2; the URL-safe alphabet; 28 to 33 bytes", "characters of the standard alphabet appear in URL-safe text", rustflags="-C target-feature=+ssse3")

seed("b64-decode-pairs", "C02",
     [(C + "base64-simd/src/decode.rs", "    // n*3/4 >= 24+4\n    while n >= 38 {",
       "    // two vectors at a time, one test for both\n    while n >= 64 + 38 {\n        let x1 = s.v256_load_unaligned(src);\n        let x2 = s.v256_load_unaligned(src.add(32));\n        let (c1, y1) = vsimd::alsw::decode_ascii_xn(s, x1, check_lut, decode_lut);\n        let (c2, y2) = vsimd::alsw::decode_ascii_xn(s, x2, check_lut, decode_lut);\n        ensure!(u8x32_highbit_any(s, s.v256_xor(c1, c2)).not());\n        for (y, at) in [(merge_bits_x2(s, y1), dst), (merge_bits_x2(s, y2), dst.add(24))] {\n            let (y1, y2) = y.to_v128x2();\n            s.v128_store_unaligned(at, y1);\n            s.v128_store_unaligned(at.add(12), y2);\n        }\n        src = src.add(64);\n        dst = dst.add(48);\n        n -= 64;\n    }\n\n    // n*3/4 >= 24+4\n    while n >= 38 {")],
     B64, r'''
fn main() {
    let t = base64_simd::STANDARD.encode_to_string(vec![0xa5u8; 300]).into_bytes();
    for d in [1, 16, 32, 64] {
        for p in 0..t.len() - d {
            let mut u = t.clone();
            u[p] = b'*';
            u[p + d] = b'*';
            assert!(base64_simd::STANDARD.decode_to_vec(&u).is_err(), "{p} {d}");
        }
    }
}
''', "at least 102 characters, of which two exactly 32 apart are outside the alphabet", "two invalid characters cancel each other")

seed("hex-encode-blocks", "C06",
     [(C + "hex-simd/src/encode.rs", "    let end = src.add(len / 32 * 32);\n    while src < end {\n        let x = s.v256_load_unaligned(src);\n        let (y1, y2) = vsimd::hex::encode_bytes32(s, x, lut);\n",
       "    let whole = len;\n    let end = src.add(len / 32 * 32);\n    while src < end {\n        let x = s.v256_load_unaligned(src);\n        let (y1, y2) = vsimd::hex::encode_bytes32(s, x, lut);\n"),
      (C + "hex-simd/src/encode.rs", "    len %= 32;\n\n    if len == 0 {\n        return;\n    }\n\n    if len >= 16 {\n        let x = s.v128_load_unaligned(src);\n        let y = vsimd::hex::encode_bytes16(s, x, lut);\n        s.v256_store_unaligned(dst, y);\n        dst = dst.add(32);",
       "    len %= 32;\n\n    if len == 0 {\n        return;\n    }\n\n    // long sources: the rest with one more vector that overlaps the last\n    if whole >= 1024 {\n        let x = s.v256_load_unaligned(src.add(len).sub(32));\n        let (y1, y2) = vsimd::hex::encode_bytes32(s, x, lut);\n        dst = dst.add(len * 2);\n        s.v256_store_unaligned(dst.sub(32), y2);\n        if len > 17 {\n            s.v256_store_unaligned(dst.sub(64), y1);\n        }\n        return;\n    }\n\n    if len >= 16 {\n        let x = s.v128_load_unaligned(src);\n        let y = vsimd::hex::encode_bytes16(s, x, lut);\n        s.v256_store_unaligned(dst, y);\n        dst = dst.add(32);")],
     HEX, """
fn main() {
    for n in 1000..1100usize {
        let src: Vec<u8> = (0..n).map(|i| (i * 37 + 11) as u8).collect();
        let mut dst = vec![0u8; 2 * n];
        use hex_simd::AsOut;
        hex_simd::encode(&src, dst.as_mut_slice().as_out(), hex_simd::AsciiCase::Lower);
        let want: String = src.iter().map(|b| format!("{b:02x}")).collect();
        assert_eq!(dst, want.as_bytes(), "{n}");
    }
}
""", "AVX2; a source of at least 1024 bytes whose length is 17 modulo 32", "two digits are missing")

seed("utf32-block-rest", "C12",
     [(C + "unicode-simd/src/utf32.rs", "    let mut y = s.u32x8_splat(0);\n\n    let end = src.add(len / 8 * 8);",
       "    let mut y = s.u32x8_splat(0);\n\n    // long inputs: blocks of four vectors, then one that ends with the input\n    if len >= 256 {\n        let last = src.add(len);\n        let end = src.add(len / 32 * 32);\n        while src < end {\n            let x = s.v256_load_unaligned(src.cast::<u8>());\n            let a1 = s.v256_xor(x, s.u32x8_splat(0xD800));\n            let a2 = s.u32x8_sub(a1, s.u32x8_splat(0x800));\n            y = s.u32x8_max(y, a2);\n            src = src.add(8);\n        }\n        len %= 32;\n        if len > 0 && len <= 16 {\n            let x = s.v256_load_unaligned(last.sub(8).cast::<u8>());\n            let a1 = s.v256_xor(x, s.u32x8_splat(0xD800));\n            let a2 = s.u32x8_sub(a1, s.u32x8_splat(0x800));\n            y = s.u32x8_max(y, a2);\n            len = len.saturating_sub(9);\n        }\n    }\n\n    let end = src.add(len / 8 * 8);")],
     UNI, """
fn main() {
    for n in 250..330usize {
        for at in 0..n {
            let mut v = vec![65u32; n];
            v[at] = 0xd800;
            assert!(!unicode_simd::is_utf32le(&v), "{n} {at}");
        }
    }
}
""", "at least 256 units, 9 to 16 of them after the last block of 32, and the only invalid unit directly before the last eight", "an invalid unit goes unseen")

seed("bswap-unrolled", "C13",
     [(C + "vsimd/src/bswap.rs", "    let end = src.add(len / T::LANES * T::LANES);\n    while src < end {\n        let x = s.v256_load_unaligned(src.cast());",
       "    // destinations aligned to a vector: two at a time\n    if len >= 16 * T::LANES && dst as usize % 32 == 0 {\n        let end = src.add(len / (2 * T::LANES) * (2 * T::LANES));\n        while src < end {\n            let x1 = s.v256_load_unaligned(src.cast());\n            let x2 = s.v256_load_unaligned(src.add(T::LANES).cast());\n            s.v256_store_unaligned(dst.cast(), <T as BSwap>::swap_simd(s, x1));\n            s.v256_store_unaligned(dst.add(T::LANES).cast(), <T as BSwap>::swap_simd(s, x2));\n            src = src.add(2 * T::LANES);\n            dst = dst.add(2 * T::LANES);\n        }\n        len %= 2 * T::LANES;\n        if len == T::LANES + 1 {\n            len -= 1;\n        }\n    }\n\n    let end = src.add(len / T::LANES * T::LANES);\n    while src < end {\n        let x = s.v256_load_unaligned(src.cast());")],
     UNI, """
use unicode_simd::AsOut;
#[repr(align(32))]
struct A([u32; 512]);
fn main() {
    let src: Vec<u32> = (0..512u32).map(|i| i * 0x01030507 + 1).collect();
    for n in 0..512 {
        let mut d = A([0xabcd; 512]);
        unicode_simd::utf32_swap_endianness(&src[..n], d.0[..].as_out());
        for i in 0..n {
            assert_eq!(d.0[i], src[i].swap_bytes(), "{n}");
        }
    }
}
""", "a destination aligned to 32 bytes and at least sixteen vectors, one vector and one unit left after pairs of vectors", "the last unit is not swapped")

seed("b32-decode-roomy", "C05",
     [(C + "base32-simd/src/lib.rs", "            ensure!(dst.len() >= m);\n\n            let src = src.as_ptr();\n            let dst = dst.as_mut_ptr();\n            self::multiversion::decode::auto(src, n, dst, self.kind)?;\n\n            Ok(slice_mut(dst, m))",
       "            ensure!(dst.len() >= m);\n\n            let roomy = dst.len() >= n * 2 && n >= 16;\n            let src = src.as_ptr();\n            let dst = dst.as_mut_ptr();\n            if roomy {\n                // room for whole groups: the rest through a group filled with zeros\n                let full = n / 8 * 8;\n                self::multiversion::decode::auto(src, full, dst, self.kind)?;\n                if full < n {\n                    let mut group = [self.charset()[0]; 8];\n                    core::ptr::copy_nonoverlapping(src.add(full), group.as_mut_ptr(), n - full);\n                    self::multiversion::decode::auto(group.as_ptr(), 8, dst.add(full / 8 * 5), self.kind)?;\n                }\n            } else {\n                self::multiversion::decode::auto(src, n, dst, self.kind)?;\n            }\n\n            Ok(slice_mut(dst, m))")],
     B32, """
use base32_simd::AsOut;
fn main() {
    let mut d = vec![0u8; 200];
    for t in ["AAAAAAAAAAAAAAAAAB", "AAAAAAAAAAAAAAAAAC", "AAAAAAAAAAAAAAAAAAAB"] {
        assert!(base32_simd::BASE32_NO_PAD.decode(t.as_bytes(), d.as_mut_slice().as_out()).is_err());
    }
}
""", "a destination at least twice as long as the text; at least 16 characters; a last symbol with nonzero unused bits", "a non-canonical text is accepted (and a few bytes behind the result overwritten)")

seed("dispatch-relaxed-flag", "C15",
     [(C + "vsimd/src/macros.rs", "use core::sync::atomic::{AtomicPtr, Ordering::Relaxed};",
       "use core::sync::atomic::{AtomicBool, AtomicPtr, Ordering::Relaxed};\n\n                static READY: AtomicBool = AtomicBool::new(false);"),
      (C + "vsimd/src/macros.rs", "AtomicPtr::new(init_ifunc as *mut ());", "AtomicPtr::new(core::ptr::null_mut());"),
      (C + "vsimd/src/macros.rs", '''                    IFUNC.store(f as *mut (), Relaxed);
                    f($($arg_name),*)
                }''', '''                    IFUNC.store(f as *mut (), Relaxed);
                    READY.store(true, Relaxed);
                    f($($arg_name),*)
                }'''),
      (C + "vsimd/src/macros.rs", '''                    let f: unsafe fn($($arg_type),*) -> $ret = core::mem::transmute(IFUNC.load(Relaxed));
                    f($($arg_name),*)
                }''', '''                    if !READY.load(Relaxed) {
                        return init_ifunc($($arg_name),*);
                    }
                    let f: unsafe fn($($arg_type),*) -> $ret = core::mem::transmute(IFUNC.load(Relaxed));
                    f($($arg_name),*)
                }''')],
     [B64], r'''
fn main() {
    let ts: Vec<_> = (0..3).map(|_| std::thread::spawn(|| {
        for _ in 0..3 {
            assert_eq!(base64_simd::STANDARD.encode_to_string(b"abc"), "YWJj");
        }
    })).collect();
    for t in ts {
        t.join().unwrap();
    }
}
''', "a weakly ordered machine: a thread sees the flag before the pointer", "a call goes through a null pointer", miri="x86_64-unknown-linux-gnu",
     env='MIRIFLAGS="-Zmiri-many-seeds=0..64 -Zmiri-ignore-leaks"')

seed("native-avx", "C14",
     [(C + "vsimd/src/native.rs", 'if is_feature_detected!("avx2") {\n                return Self(Arch::Avx2);', 'if is_feature_detected!("avx") {\n                return Self(Arch::Avx2);')],
     'vsimd = { path = "@vsimd", features = ["std", "detect"] }', r'''
fn main() {
    vsimd::isa::verif::install(|f| f != "avx2");
    let n = format!("{:?}", vsimd::native::Native::detect());
    assert!(!n.contains("Avx2"), "{n}");
}
''', "a CPU that announces AVX and not AVX2", "native execution runs AVX2 code where only AVX is announced", rustflags="--cfg vsimd_verif")


seed("forgiving-sentinel", "C16",
     [(C + "base64-simd/src/ascii.rs", "    let (src, len) = slice_parts(data);\n    unsafe { crate::multiversion::find_non_ascii_whitespace::auto(src, len) }",
       """    let (src, len) = slice_parts(data);
    if len >= 4096 {
        // a sentinel at the end saves the bounds check
        unsafe {
            let last = src.cast_mut().add(len - 1);
            let keep = last.read_volatile();
            last.write_volatile(b' ');
            let pos = crate::multiversion::find_non_ascii_whitespace::auto(src, len);
            last.write_volatile(keep);
            return if pos == len - 1 && lookup_ascii_whitespace(keep) == 0 { len } else { pos };
        }
    }
    unsafe { crate::multiversion::find_non_ascii_whitespace::auto(src, len) }""")],
     B64, """
static TEXT: [u8; 8192] = [b'A'; 8192];
fn main() {
    let t = std::hint::black_box(&TEXT);
    assert_eq!(base64_simd::forgiving_decode_to_vec(t).unwrap().len(), 6144);
}
""", "a text of at least 4096 bytes in memory that cannot be written", "forgiving decoding writes to its source (and restores it)")

seed("b32-lazy-table", "C15",
     [(C + "base32-simd/src/decode.rs", "#[inline(always)]\npub(crate) unsafe fn decode_fallback(",
       """/// The decoding table of base32hex, built when it is first needed.
unsafe fn lazy_table() -> *const u8 {
    use core::sync::atomic::{AtomicBool, AtomicU8, Ordering};
    #[allow(clippy::declare_interior_mutable_const)]
    const EMPTY: AtomicU8 = AtomicU8::new(0xff);
    static TABLE: [AtomicU8; 256] = [EMPTY; 256];
    static BUILT: AtomicBool = AtomicBool::new(false);
    if !BUILT.swap(true, Ordering::AcqRel) {
        let mut i = 0;
        while i < 32 {
            TABLE[BASE32HEX_CHARSET[i] as usize].store(i as u8, Ordering::Release);
            i += 1;
        }
    }
    TABLE.as_ptr().cast()
}

#[inline(always)]
pub(crate) unsafe fn decode_fallback("""),
      (C + "base32-simd/src/decode.rs", "    let table = match kind {\n        Kind::Base32 => BASE32_TABLE.as_ptr(),\n        Kind::Base32Hex => BASE32HEX_TABLE.as_ptr(),\n    };\n\n    let end = src.add(n / 8 * 8);",
       "    let table = match kind {\n        Kind::Base32 => BASE32_TABLE.as_ptr(),\n        Kind::Base32Hex => lazy_table(),\n    };\n\n    let end = src.add(n / 8 * 8);")],
     B32, """
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
fn main() {
    if std::env::args().nth(1).is_some() {
        let k = 6;
        let gate = Arc::new(AtomicUsize::new(0));
        let ts: Vec<_> = (0..k).map(|_| {
            let gate = gate.clone();
            std::thread::spawn(move || {
                gate.fetch_add(1, Ordering::SeqCst);
                while gate.load(Ordering::SeqCst) < k {}
                assert_eq!(base32_simd::BASE32HEX_NO_PAD.decode_to_vec("VVVVVVVVVVVVVVVV").unwrap(), [0xff; 10]);
            })
        }).collect();
        for t in ts {
            t.join().unwrap();
        }
        return;
    }
    let me = std::env::current_exe().unwrap();
    for _ in 0..6000 {
        assert!(std::process::Command::new(&me).arg("x").output().unwrap().status.success());
    }
}
""", "another thread is building the table at its first use", "a decode sees a half-built table and rejects a canonical text")

seed("b64-charset-cache", "C15",
     [(C + "base64-simd/src/encode.rs", "#[inline]\npub(crate) unsafe fn encode_fallback(",
       """/// The charset of `kind`; the last one asked for is kept at hand.
unsafe fn cached_charset(kind: Kind) -> *const u8 {
    use core::sync::atomic::{AtomicPtr, AtomicU8, Ordering::Relaxed};
    static KIND: AtomicU8 = AtomicU8::new(0xff);
    static CHARSET: AtomicPtr<u8> = AtomicPtr::new(core::ptr::null_mut());
    if KIND.load(Relaxed) != kind as u8 {
        let charset = match kind {
            Kind::Standard => STANDARD_CHARSET.as_ptr(),
            Kind::UrlSafe => URL_SAFE_CHARSET.as_ptr(),
        };
        CHARSET.store(charset.cast_mut(), Relaxed);
        KIND.store(kind as u8, Relaxed);
        return charset;
    }
    CHARSET.load(Relaxed)
}

#[inline]
pub(crate) unsafe fn encode_fallback("""),
      (C + "base64-simd/src/encode.rs", "    let charset = match kind {\n        Kind::Standard => STANDARD_CHARSET.as_ptr(),\n        Kind::UrlSafe => URL_SAFE_CHARSET.as_ptr(),\n    };\n\n    const L",
       "    let charset = cached_charset(kind);\n\n    const L")],
     B64, """
fn main() {
    let ts: Vec<_> = (0..6).map(|i| std::thread::spawn(move || {
        let s = [0xffu8; 5];
        for k in 0..400_000 {
            if (i + k) % 2 == 0 {
                assert_eq!(base64_simd::STANDARD.encode_to_string(s), "//////8=");
            } else {
                assert_eq!(base64_simd::URL_SAFE.encode_to_string(s), "______8=");
            }
        }
    })).collect();
    for t in ts {
        t.join().unwrap();
    }
}
""", "calls of both alphabets at the same time", "a call encodes with the other variant's alphabet")

seed("uuid-alternate", "C10",
     [(C + "uuid-simd/src/ext.rs", "        let case = AsciiCase::Upper;\n        unsafe { format_uuid(self.0, case, crate::format_simple, |s| <str as fmt::Display>::fmt(s, f)) }",
       "        let case = AsciiCase::Upper;\n        if f.alternate() {\n            f.write_str(\"0x\")?;\n        }\n        unsafe { format_uuid(self.0, case, crate::format_simple, |s| <str as fmt::Display>::fmt(s, f)) }")],
     UUID, """
use uuid_simd::UuidExt;
fn main() {
    let u = uuid::Uuid::from_bytes([0xab; 16]);
    assert_eq!(format!("{:X}", u.format_simple()), "AB".repeat(16));
    assert_eq!(format!("{:#X}", u.format_simple()), "AB".repeat(16));
}
""", "the alternate flag", "the simple upper-case text gets a prefix that belongs to no UUID form")

seed("par-join-halves", "C20",
     [(C + "base64-simd/src/parallel.rs", "        let chunks = (b + p) / p;",
       """        if src.len() > 1 << 23 {
            // let the pool divide long sources as it pleases
            unsafe fn halves(b: &Base64, src: &[u8], dst: *mut u8, last: bool) {
                struct Send(*mut u8);
                unsafe impl core::marker::Send for Send {}
                if src.len() < 1 << 20 {
                    let extra = if last { b.config.extra } else { Extra::NoPad };
                    let config = Config { kind: b.config.kind, extra };
                    crate::multiversion::encode::auto(src.as_ptr(), src.len(), dst, config);
                    return;
                }
                let mid = (src.len() / 2).next_multiple_of(3);
                let (s1, s2) = src.split_at(mid);
                let (d1, d2) = (Send(dst), Send(dst.add(mid / 3 * 4)));
                let last1 = false;
                rayon::join(
                    || halves(b, s1, { let d = d1; d.0 }, last1),
                    || halves(b, s2, { let d = d2; d.0 }, last && s2.len() % 3 != 1),
                );
            }
            unsafe {
                let p = dst.as_mut_ptr().cast::<u8>();
                halves(self, src, p, true);
                return Ok(slice_mut(p, encoded_len));
            }
        }

        let chunks = (b + p) / p;""")],
     'base64-simd = { path = "@base64-simd", features = ["parallel", "unstable"] }\nrayon = "1"', """
use base64_simd::{AsOut, STANDARD};
fn main() {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap();
    for n in [9_000_000usize, 9_000_001, 9_000_002] {
        let src: Vec<u8> = (0..n).map(|i| (i * 31 % 251) as u8).collect();
        let want = STANDARD.encode_to_string(&src);
        let mut dst = vec![b'~'; want.len()];
        let got = pool.install(|| STANDARD.par_encode(&src, dst.as_mut_slice().as_out()).unwrap().to_vec());
        assert!(got == want.as_bytes(), "{n}");
    }
}
""", "a source of more than 8 MiB and of length 1 modulo 3, a padded variant", "the padding of the last group is not written", toolchain="+nightly-2025-06-20")

seed("utf32-head-bound", "C12",
     [(C + "unicode-simd/src/utf32.rs", "    let mut y = s.u32x8_splat(0);\n\n    let end = src.add(len / 8 * 8);",
       """    let mut y = s.u32x8_splat(0);

    // up to a boundary of the vectors
    let head = src.align_offset(32);
    if head < 8 && len >= 64 {
        for _ in 0..head {
            let x = src.read();
            if x > 0x11_0000 || (x >> 11) == 0x1b {
                return false;
            }
            src = src.add(1);
        }
        len -= head;
    }

    let end = src.add(len / 8 * 8);""")],
     UNI, """
fn main() {
    let mut v = vec![0x41u32; 100];
    for i in 0..16 {
        for start in 0..8 {
            v[start + i] = 0x11_0000;
            assert!(!unicode_simd::is_utf32le_ascii(&v[start..]));
            v[start + i] = 0x41;
        }
    }
}
""".replace("is_utf32le_ascii", "is_utf32le"), "at least 64 units, the slice not aligned to 32 bytes, the value 0x110000 exactly before the first aligned vector", "0x110000 is taken for a scalar value")

seed("bswap-count-u16", "C13",
     [(C + "vsimd/src/bswap.rs", "    let end = src.add(len / T::LANES * T::LANES);\n    while src < end {\n        let x = s.v256_load_unaligned(src.cast());",
       "    // whole vectors, at most 16 MiB of them before the rest\n    let vectors = (len / T::LANES) as u32 & 0x000f_ffff | ((len / T::LANES) >> 21 << 20) as u32;\n    let end = src.add(vectors as usize * T::LANES);\n    while src < end {\n        let x = s.v256_load_unaligned(src.cast());")],
     UNI, """
fn main() {
    let n = 10_000_000u32;
    let mut v: Vec<u32> = (0..n).collect();
    unicode_simd::utf32_swap_endianness_inplace(&mut v);
    assert!(v.iter().enumerate().all(|(i, x)| x.swap_bytes() == i as u32));
}
""", "more than 32 MiB of units", "the units behind a 20-bit count of vectors stay as they were")

seed("inplace-swar-formfeed", "C17",
     [(C + "base64-simd/src/ascii.rs", "        let rem = remove_ascii_whitespace_fallback(src, len, dst);\n        debug_assert!(rem <= len);\n\n        data.get_unchecked_mut(..(pos + rem))",
       """        // words of eight bytes without white space move at once
        let (mut r, mut w, end) = (src, dst, src.add(len));
        while end.offset_from(r) >= 8 {
            let x = r.cast::<u64>().read_unaligned();
            let zero = |c: u8| {
                let y = x ^ (0x0101_0101_0101_0101 * u64::from(c));
                y.wrapping_sub(0x0101_0101_0101_0101) & !y & 0x8080_8080_8080_8080
            };
            if zero(b' ') | zero(b'\\n') | zero(b'\\r') | zero(b'\\t') == 0 {
                w.cast::<u64>().write_unaligned(x);
                w = w.add(8);
                r = r.add(8);
            } else {
                let k = remove_ascii_whitespace_fallback(r, 8, w);
                w = w.add(k);
                r = r.add(8);
            }
        }
        let k = remove_ascii_whitespace_fallback(r, end.offset_from(r) as usize, w);
        let rem = w.add(k).offset_from(dst) as usize;
        debug_assert!(rem <= len);

        data.get_unchecked_mut(..(pos + rem))""")],
     B64, r"""
fn main() {
    let t = b"QUJD QUJDQUJ\x0cDQUJDQUJD".to_vec();
    let a = base64_simd::forgiving_decode_to_vec(&t).unwrap();
    let mut u = t.clone();
    let b = base64_simd::forgiving_decode_inplace(&mut u).unwrap();
    assert_eq!(a, b);
}
""", "in place; a form feed in a word of eight bytes without other white space, behind an earlier white space, and not among the last eight bytes",
     "in-place forgiving decoding keeps the form feed and fails where the copying form succeeds")

seed("ws-run-overread", "C16",
     [(C + "base64-simd/src/ascii.rs", "    let dst_base = dst;\n\n    let end = src.add(len);\n    while src < end {\n        let x = src.read();\n        if lookup_ascii_whitespace(x) == 0 {",
       """    let dst_base = dst;

    let end = src.add(len);
    while src < end {
        let x = src.read();
        if len >= 64 && x == b' ' {
            // runs of blanks (indentation) are skipped at once
            while src.cast::<u64>().read_unaligned() == 0x2020_2020_2020_2020 {
                src = src.add(8);
            }
            if src >= end {
                break;
            }
            let x = src.read();
            if lookup_ascii_whitespace(x) == 0 {
                dst.write(x);
                dst = dst.add(1);
            }
            src = src.add(1);
            continue;
        }
        if lookup_ascii_whitespace(x) == 0 {""")],
     B64, """
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: isize) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}
fn main() {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0);
        assert!(mprotect(p.add(4096), 4096, 0) == 0);
        let s = std::slice::from_raw_parts_mut(p.add(4096 - 101), 101);
        s.fill(b'A');
        s[0] = b' ';
        assert_eq!(base64_simd::forgiving_decode_to_vec(s).unwrap().len(), 75);
        s[98] = b' ';
        assert!(base64_simd::forgiving_decode_to_vec(s).is_ok());
    }
}
""", "a text of at least 64 bytes with a blank among its last seven bytes", "bytes behind the text are read")

seed("b64-words-32bit", "C22",
     [(C + "base64-simd/src/encode.rs", "    let x = u64::from_be_bytes(src.cast::<[u8; 8]>().read());\n    let mut i = 0;",
       """    if cfg!(target_pointer_width = "32") {
        // two words of 24 bits: shifts of 64 bits are slow there
        let hi = src.cast::<[u8; 4]>().read();
        let lo = src.add(4).cast::<[u8; 2]>().read();
        let hi = u32::from_be_bytes(hi);
        let lo = (hi << 24) | (i32::from(i16::from_be_bytes(lo)) << 8) as u32;
        let mut i = 0;
        while i < 4 {
            write(dst, i, read(charset, (hi >> (26 - i * 6) & 0x3f) as usize));
            write(dst, i + 4, read(charset, (lo >> (26 - i * 6) & 0x3f) as usize));
            i += 1;
        }
        return;
    }
    let x = u64::from_be_bytes(src.cast::<[u8; 8]>().read());
    let mut i = 0;""")],
     B64, """
fn main() {
    let e = base64_simd::STANDARD;
    assert_eq!(e.encode_to_string([0u8; 9]), "AAAAAAAAAAAA");
    assert_eq!(e.encode_to_string([0, 0, 0, 0, 0x80, 0, 0, 0, 0]), "AAAAAIAAAAAA");
}
""", "a 32-bit target; the fifth byte of a group of six is at least 0x80", "the fourth byte of the group is encoded as 0xff", miri="i686-unknown-linux-gnu")


seed("par-thread-slots", "C20",
     [(C + "base64-simd/src/parallel.rs", "        let p = rayon::current_num_threads();\n        let b = src.len() / 3;",
       "        // one slot per thread; 64 are plenty\n        let threads = rayon::current_num_threads();\n        let p = threads.min(64);\n        let b = src.len() / 3;"),
      (C + "base64-simd/src/parallel.rs", "let chunks = (b + p) / p;", "let chunks = (b + threads) / threads;"),
      (C + "base64-simd/src/parallel.rs", "let src_chunks = src.par_chunks(chunks * 3);", "let src_chunks = src.par_chunks(chunks * 3).take(p);")],
     'base64-simd = { path = "@base64-simd", features = ["parallel", "unstable"] }\nrayon = "1"', """
use base64_simd::{AsOut, STANDARD};
fn main() {
    let pool = rayon::ThreadPoolBuilder::new().num_threads(80).build().unwrap();
    let src: Vec<u8> = (0..500_000usize).map(|i| (i * 31 % 251) as u8).collect();
    let want = STANDARD.encode_to_string(&src);
    let mut dst = vec![b'~'; want.len()];
    let got = pool.install(|| STANDARD.par_encode(&src, dst.as_mut_slice().as_out()).unwrap().to_vec());
    assert!(got == want.as_bytes());
}
""", "a pool of more than 64 threads", "the text behind the 64th chunk is never written", toolchain="+nightly-2025-06-20")

seed("b32-assert-effect", "C22",
     [(C + "base32-simd/src/decode.rs", "            let (u35, flag) = decode_bits::<7>(src, table);\n            ensure!(flag != 0xff && u35 & 0b111 == 0);",
       "            let (mut u35, mut flag) = decode_bits::<4>(src, table);\n            debug_assert!({\n                let (u15, rest) = decode_bits::<3>(src.add(4), table);\n                u35 = u35 << 15 | u15;\n                flag |= rest;\n                true\n            });\n            ensure!(flag != 0xff && u35 & 0b111 == 0);"),
      (C + "base32-simd/src/decode.rs", "debug_assert!(matches!(N, 2 | 4 | 5 | 7 | 8));", "debug_assert!(matches!(N, 2..=8));")],
     B32, """
fn main() {
    let e = base32_simd::BASE32;
    for s in [b"abcd".as_slice(), b"abcdefghi", b"ab", b"abcde"] {
        assert_eq!(e.decode_to_vec(e.encode_to_string(s)).unwrap(), s);
    }
}
""", "a build without debug assertions; a last group of seven symbols", "the last three symbols are not decoded")
