//! The primitives of vsimd as functions from bytes to bytes, one per instruction set.
#![allow(clippy::all, unused_unsafe, unused_variables, unused_mut)]
use crate::classes::{c32, c64};
use vsimd::alsw;
use vsimd::ascii;
use vsimd::bswap::{bswap_fallback, bswap_simd, BSwap};
use vsimd::hex;
use vsimd::isa::*;
use vsimd::mask;
use vsimd::table::u8x16xn_lookup;
use vsimd::vector::{V128, V256, V512, V64};
#[cfg(target_arch = "aarch64")]
use vsimd::SIMD64;
use vsimd::{Scalable, SIMD128, SIMD256};

pub type F = unsafe fn(&[u8], &mut [u8]);
pub struct Op {
    pub name: &'static str,
    pub f: &'static [(&'static str, F)],
}

pub trait In: Copy {
    const N: usize;
    fn get(b: &[u8]) -> Self;
}
pub trait Out {
    fn put(self, o: &mut [u8]);
}
macro_rules! vecs { ($($t:ty, $n:literal);*) => { $(
    impl In for $t { const N: usize = $n; #[inline(always)] fn get(b: &[u8]) -> Self { <$t>::from_bytes(b[..$n].try_into().unwrap()) } }
    impl Out for $t { #[inline(always)] fn put(self, o: &mut [u8]) { o[..$n].copy_from_slice(self.as_bytes()) } }
)* } }
vecs!(V64, 8; V128, 16; V256, 32; V512, 64);
macro_rules! ints { ($($t:ty)*) => { $(
    impl In for $t { const N: usize = core::mem::size_of::<$t>(); #[inline(always)] fn get(b: &[u8]) -> Self { <$t>::from_ne_bytes(b[..Self::N].try_into().unwrap()) } }
    impl Out for $t { #[inline(always)] fn put(self, o: &mut [u8]) { o[..core::mem::size_of::<$t>()].copy_from_slice(&self.to_ne_bytes()) } }
)* } }
ints!(u8 u16 u32 u64 i8 i16 i32 i64);
impl Out for bool {
    #[inline(always)]
    fn put(self, o: &mut [u8]) {
        o[0] = self as u8
    }
}
impl<A: Out + In, B: Out> Out for (A, B) {
    #[inline(always)]
    fn put(self, o: &mut [u8]) {
        self.0.put(o);
        self.1.put(&mut o[A::N..]);
    }
}
impl<A: Out> Out for Result<A, ()> {
    #[inline(always)]
    fn put(self, o: &mut [u8]) {
        match self {
            Ok(a) => {
                o[0] = 1;
                a.put(&mut o[1..])
            }
            Err(()) => o.iter_mut().for_each(|x| *x = 0),
        }
    }
}
#[derive(Clone, Copy)]
#[repr(C, align(64))]
pub struct Mem([u8; 64]);
impl In for Mem {
    const N: usize = 64;
    #[inline(always)]
    fn get(b: &[u8]) -> Self {
        Mem(b[..64].try_into().unwrap())
    }
}
impl Out for Mem {
    #[inline(always)]
    fn put(self, o: &mut [u8]) {
        o[..64].copy_from_slice(&self.0)
    }
}
/// verdict and value of every lane, the value of an invalid lane blanked
pub struct Class<const N: usize>([u8; N], [u8; N]);
impl<const N: usize> Out for Class<N> {
    #[inline(always)]
    fn put(self, o: &mut [u8]) {
        for i in 0..N {
            o[2 * i] = self.0[i] >> 7;
            o[2 * i + 1] = if self.0[i] >> 7 == 1 { 0 } else { self.1[i] };
        }
    }
}
#[derive(Clone, Copy)]
pub struct Bytes<const N: usize>([u8; N]);
impl<const N: usize> In for Bytes<N> {
    const N: usize = N;
    #[inline(always)]
    fn get(b: &[u8]) -> Self {
        Bytes(b[..N].try_into().unwrap())
    }
}
impl<const N: usize> Out for Bytes<N> {
    #[inline(always)]
    fn put(self, o: &mut [u8]) {
        o[..N].copy_from_slice(&self.0)
    }
}
/// reverse the units of a byte string through the slice kernels
#[inline(always)]
unsafe fn swapped<T: BSwap, const N: usize>(a: Bytes<N>, f: impl FnOnce(*const T, usize, *mut T)) -> Bytes<N> {
    let n = N / core::mem::size_of::<T>();
    let mut v: Vec<T> = Vec::with_capacity(n);
    let mut d: Vec<T> = Vec::with_capacity(n);
    core::ptr::copy_nonoverlapping(a.0.as_ptr(), v.as_mut_ptr().cast::<u8>(), N);
    f(v.as_ptr(), n, d.as_mut_ptr());
    let mut o = [0; N];
    core::ptr::copy_nonoverlapping(d.as_ptr().cast::<u8>(), o.as_mut_ptr(), N);
    Bytes(o)
}

macro_rules! op {
    ($v:ident, $name:expr, $s:ident $(, $a:ident : $t:ty)* => $e:expr) => {{
        #[inline(always)]
        unsafe fn g<S: SIMD256>($s: S, i: &[u8], o: &mut [u8]) {
            let mut p = 0;
            $( let $a = <$t as In>::get(&i[p..]); p += <$t as In>::N; )*
            Out::put($e, o)
        }
        #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
        {
            #[target_feature(enable = "sse2")]
            unsafe fn f0(i: &[u8], o: &mut [u8]) { g(SSE2::new(), i, o) }
            #[target_feature(enable = "ssse3")]
            unsafe fn f1(i: &[u8], o: &mut [u8]) { g(SSSE3::new(), i, o) }
            #[target_feature(enable = "sse4.1")]
            unsafe fn f2(i: &[u8], o: &mut [u8]) { g(SSE41::new(), i, o) }
            #[target_feature(enable = "avx2")]
            unsafe fn f3(i: &[u8], o: &mut [u8]) { g(AVX2::new(), i, o) }
            const L: &[(&str, F)] = &[("sse2", f0), ("ssse3", f1), ("sse41", f2), ("avx2", f3)];
            $v.push(Op { name: $name, f: L });
        }
        #[cfg(target_arch = "aarch64")]
        {
            #[target_feature(enable = "neon")]
            unsafe fn f0(i: &[u8], o: &mut [u8]) { g(NEON::new(), i, o) }
            const L: &[(&str, F)] = &[("neon", f0)];
            $v.push(Op { name: $name, f: L });
        }
        #[cfg(target_arch = "wasm32")]
        {
            unsafe fn f0(i: &[u8], o: &mut [u8]) { g(WASM128::new(), i, o) }
            const L: &[(&str, F)] = &[("wasm128", f0)];
            $v.push(Op { name: $name, f: L });
        }
    }};
}
macro_rules! m1 { ($v:ident, $t:ty: $($f:ident)*) => { $( op!($v, stringify!($f), s, a: $t => s.$f(a)); )* } }
macro_rules! m2 { ($v:ident, $t:ty: $($f:ident)*) => { $( op!($v, stringify!($f), s, a: $t, b: $t => s.$f(a, b)); )* } }
macro_rules! m3 { ($v:ident, $t:ty: $($f:ident)*) => { $( op!($v, stringify!($f), s, a: $t, b: $t, c: $t => s.$f(a, b, c)); )* } }
macro_rules! imm1 { ($v:ident, $f:ident, $t:ty: $($k:literal)*) => { $( op!($v, concat!(stringify!($f), ".", $k), s, a: $t => s.$f::<$k>(a)); )* } }
macro_rules! imm2 { ($v:ident, $f:ident, $t:ty: $($k:literal)*) => { $( op!($v, concat!(stringify!($f), ".", $k), s, a: $t, b: $t => s.$f::<$k>(a, b)); )* } }
macro_rules! mem { ($v:ident, $t:ty, $l:ident, $st:ident: $($k:literal)*) => { $(
    op!($v, concat!(stringify!($l), ".", $k), s, a: Mem => s.$l(a.0.as_ptr().add($k)));
    op!($v, concat!(stringify!($st), ".", $k), s, a: Mem, b: $t => { let mut m = a; s.$st(m.0.as_mut_ptr().add($k), b); m });
)* } }
macro_rules! splat { ($v:ident: $($f:ident $t:ty, $r:ty);*) => { $( op!($v, stringify!($f), s, a: $t => { let r: $r = s.$f(a); r }); )* } }
macro_rules! xn1 { ($v:ident, $p:literal, $t:ty: $($f:ident)*) => { $( op!($v, concat!($p, ".", stringify!($f)), s, a: $t => Scalable::<$t>::$f(s, a)); )* } }
macro_rules! xn2 { ($v:ident, $p:literal, $t:ty: $($f:ident)*) => { $( op!($v, concat!($p, ".", stringify!($f)), s, a: $t, b: $t => Scalable::<$t>::$f(s, a, b)); )* } }
macro_rules! xni { ($v:ident, $p:literal, $t:ty, $f:ident: $($k:literal)*) => { $( op!($v, concat!($p, ".", stringify!($f), ".", $k), s, a: $t => Scalable::<$t>::$f::<$k>(s, a)); )* } }
macro_rules! sim { ($v:ident, $f:ident: $($k:literal)*) => { $( op!($v, concat!("sim.", stringify!($f), ".", $k), s, a: V128 => vsimd::simulation::$f(a, $k)); )* } }

fn basic16(v: &mut Vec<Op>) {
    m2!(v, V128: u8x16_add u16x8_add u32x4_add u64x2_add u8x16_sub u16x8_sub u32x4_sub u64x2_sub u8x16_sub_sat u16x8_sub_sat i8x16_sub_sat i16x8_sub_sat u8x16_eq u16x8_eq u32x4_eq u8x16_lt u16x8_lt u32x4_lt i8x16_lt i16x8_lt i32x4_lt u8x16_max u16x8_max u32x4_max i8x16_max i16x8_max i32x4_max u8x16_min u16x8_min u32x4_min i8x16_min i16x8_min i32x4_min u8x16_avgr u8x16_add_sat i8x16_add_sat i16x8_mul_lo i32x4_mul_lo u16x8_mul_hi i16x8_mul_hi i16x8_maddubs i16x8_madd v128_and v128_or v128_xor v128_andnot u8x16_zip_lo u8x16_zip_hi u16x8_zip_lo u16x8_zip_hi u32x4_zip_lo u32x4_zip_hi u64x2_zip_lo u64x2_zip_hi u8x16_unzip_even u8x16_unzip_odd u8x16_swizzle i16x8_packus);
    m1!(v, V128: v128_not u8x16_any_zero v128_all_zero u8x16_bitmask u16x8_bswap u32x4_bswap u64x2_bswap);
    m3!(v, V128: v128_bsl u8x16_blendv);
    op!(v, "v128_create_zero", s => s.v128_create_zero());
    splat!(v: u8x16_splat u8, V128; u16x8_splat u16, V128; u32x4_splat u32, V128; u64x2_splat u64, V128; i8x16_splat i8, V128; i16x8_splat i16, V128; i32x4_splat i32, V128; i64x2_splat i64, V128);
}
fn imm16(v: &mut Vec<Op>) {
    imm1!(v, u16x8_shl, V128: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
    imm1!(v, u32x4_shl, V128: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
    #[cfg(not(target_arch = "aarch64"))]
    imm1!(v, u16x8_shr, V128: 0);
    imm1!(v, u16x8_shr, V128: 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
    #[cfg(not(target_arch = "aarch64"))]
    imm1!(v, u32x4_shr, V128: 0);
    imm1!(v, u32x4_shr, V128: 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
    mem!(v, V128, v128_load_unaligned, v128_store_unaligned: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
    op!(v, "v128_load", s, a: Mem => s.v128_load(a.0.as_ptr().add(32)));
    op!(v, "v128_store", s, a: Mem, b: V128 => { let mut m = a; s.v128_store(m.0.as_mut_ptr().add(32), b); m });
}
fn help16(v: &mut Vec<Op>) {
    xn2!(v, "xn16", V128: and or xor andnot u8xn_add u8xn_sub u32xn_sub u8xn_add_sat i8xn_add_sat u8xn_sub_sat u8xn_eq i8xn_lt u32xn_lt u32xn_max u8xn_avgr u8x16xn_swizzle);
    xn1!(v, "xn16", V128: all_zero mask8xn_all mask8xn_any u8xn_highbit_all u8xn_highbit_any u16xn_bswap u32xn_bswap u64xn_bswap);
    op!(v, "xn16.u8xn_splat", s, a: u8 => { let r: V128 = s.u8xn_splat(a); r });
    op!(v, "xn16.i8xn_splat", s, a: i8 => { let r: V128 = s.i8xn_splat(a); r });
    op!(v, "xn16.u32xn_splat", s, a: u32 => { let r: V128 = s.u32xn_splat(a); r });
    xni!(v, "xn16", V128, u16xn_shl: 1 4 8 12 15);
    xni!(v, "xn16", V128, u16xn_shr: 1 4 8 12 15);
    xni!(v, "xn16", V128, u32xn_shr: 1 3 4 8 17 31);
    op!(v, "table.lookup16", s, a: V128, b: V128 => u8x16xn_lookup(s, a, b));
    op!(v, "mask8x16_all", s, a: V128 => mask::mask8x16_all(s, a));
    op!(v, "u8x16_highbit_all", s, a: V128 => mask::u8x16_highbit_all(s, a));
    op!(v, "mask8x16_any", s, a: V128 => mask::mask8x16_any(s, a));
    op!(v, "u8x16_highbit_any", s, a: V128 => mask::u8x16_highbit_any(s, a));
    op!(v, "hex.check16", s, a: V128 => hex::check_xn(s, a));
    op!(v, "ascii.lower16", s, a: V128 => ascii::to_ascii_lowercase(s, a));
    op!(v, "ascii.upper16", s, a: V128 => ascii::to_ascii_uppercase(s, a));
    op!(v, "alsw64.check16", s, a: V128 => alsw::check_ascii_xn(s, a, c64::CHECK));
    op!(v, "alsw64.decode16", s, a: V128 => { let (c, d) = alsw::decode_ascii_xn(s, a, c64::CHECK, c64::DECODE); Class(*c.as_bytes(), *d.as_bytes()) });
    op!(v, "alsw32.check16", s, a: V128 => alsw::check_ascii_xn(s, a, c32::CHECK));
    op!(v, "alsw32.decode16", s, a: V128 => { let (c, d) = alsw::decode_ascii_xn(s, a, c32::CHECK, c32::DECODE); Class(*c.as_bytes(), *d.as_bytes()) });
    op!(v, "hex.encode16.lo", s, a: V128 => hex::encode_bytes16(s, a, hex::ENCODE_LOWER_LUT));
    op!(v, "hex.encode16.up", s, a: V128 => hex::encode_bytes16(s, a, hex::ENCODE_UPPER_LUT));
    op!(v, "hex.decode16", s, a: V128 => hex::decode_ascii16(s, a));
}
fn basic32(v: &mut Vec<Op>) {
    m2!(v, V256: u8x32_add u16x16_add u32x8_add u64x4_add u8x32_sub u16x16_sub u32x8_sub u64x4_sub u8x32_sub_sat u16x16_sub_sat i8x32_sub_sat i16x16_sub_sat u8x32_eq u16x16_eq u32x8_eq u8x32_lt u16x16_lt u32x8_lt i8x32_lt i16x16_lt i32x8_lt u8x32_max u16x16_max u32x8_max i8x32_max i16x16_max i32x8_max u8x32_min u16x16_min u32x8_min i8x32_min i16x16_min i32x8_min u8x32_avgr u8x32_add_sat i8x32_add_sat i16x16_mul_lo i32x8_mul_lo u16x16_mul_hi i16x16_mul_hi i16x16_maddubs i16x16_madd v256_and v256_or v256_xor v256_andnot u8x16x2_zip_lo u8x16x2_zip_hi u16x8x2_zip_lo u16x8x2_zip_hi u32x4x2_zip_lo u32x4x2_zip_hi u64x2x2_zip_lo u64x2x2_zip_hi u8x32_unzip_even u8x32_unzip_odd u8x16x2_swizzle v128x2_zip_lo v128x2_zip_hi u64x4_unzip_even u64x4_unzip_odd);
    m1!(v, V256: v256_not u8x32_any_zero v256_all_zero u8x32_bitmask u16x16_bswap u32x8_bswap u64x4_bswap);
    m3!(v, V256: v256_bsl u8x32_blendv);
    op!(v, "v256_create_zero", s => s.v256_create_zero());
    splat!(v: u8x32_splat u8, V256; u16x16_splat u16, V256; u32x8_splat u32, V256; u64x4_splat u64, V256; i8x32_splat i8, V256; i16x16_splat i16, V256; i32x8_splat i32, V256; i64x4_splat i64, V256);
}
fn imm32(v: &mut Vec<Op>) {
    imm1!(v, u16x16_shl, V256: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
    imm1!(v, u32x8_shl, V256: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
    #[cfg(not(target_arch = "aarch64"))]
    imm1!(v, u16x16_shr, V256: 0);
    imm1!(v, u16x16_shr, V256: 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
    #[cfg(not(target_arch = "aarch64"))]
    imm1!(v, u32x8_shr, V256: 0);
    imm1!(v, u32x8_shr, V256: 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
    mem!(v, V256, v256_load_unaligned, v256_store_unaligned: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
    op!(v, "v256_load", s, a: Mem => s.v256_load(a.0.as_ptr().add(32)));
    op!(v, "v256_store", s, a: Mem, b: V256 => { let mut m = a; s.v256_store(m.0.as_mut_ptr().add(32), b); m });
}
fn help32(v: &mut Vec<Op>) {
    xn2!(v, "xn32", V256: and or xor andnot u8xn_add u8xn_sub u32xn_sub u8xn_add_sat i8xn_add_sat u8xn_sub_sat u8xn_eq i8xn_lt u32xn_lt u32xn_max u8xn_avgr u8x16xn_swizzle);
    xn1!(v, "xn32", V256: all_zero mask8xn_all mask8xn_any u8xn_highbit_all u8xn_highbit_any u16xn_bswap u32xn_bswap u64xn_bswap);
    op!(v, "xn32.u8xn_splat", s, a: u8 => { let r: V256 = s.u8xn_splat(a); r });
    op!(v, "xn32.i8xn_splat", s, a: i8 => { let r: V256 = s.i8xn_splat(a); r });
    op!(v, "xn32.u32xn_splat", s, a: u32 => { let r: V256 = s.u32xn_splat(a); r });
    xni!(v, "xn32", V256, u16xn_shl: 1 4 8 12 15);
    xni!(v, "xn32", V256, u16xn_shr: 1 4 8 12 15);
    xni!(v, "xn32", V256, u32xn_shr: 1 3 4 8 17 31);
    op!(v, "table.lookup32", s, a: V256, b: V256 => u8x16xn_lookup(s, a, b));
    op!(v, "mask8x32_all", s, a: V256 => mask::mask8x32_all(s, a));
    op!(v, "u8x32_highbit_all", s, a: V256 => mask::u8x32_highbit_all(s, a));
    op!(v, "mask8x32_any", s, a: V256 => mask::mask8x32_any(s, a));
    op!(v, "u8x32_highbit_any", s, a: V256 => mask::u8x32_highbit_any(s, a));
    op!(v, "hex.check32", s, a: V256 => hex::check_xn(s, a));
    op!(v, "ascii.lower32", s, a: V256 => ascii::to_ascii_lowercase(s, a));
    op!(v, "ascii.upper32", s, a: V256 => ascii::to_ascii_uppercase(s, a));
    op!(v, "alsw64.check32", s, a: V256 => alsw::check_ascii_xn(s, a, c64::CHECK2));
    op!(v, "alsw64.decode32", s, a: V256 => { let (c, d) = alsw::decode_ascii_xn(s, a, c64::CHECK2, c64::DECODE2); Class(*c.as_bytes(), *d.as_bytes()) });
    op!(v, "alsw32.check32", s, a: V256 => alsw::check_ascii_xn(s, a, c32::CHECK2));
    op!(v, "alsw32.decode32", s, a: V256 => { let (c, d) = alsw::decode_ascii_xn(s, a, c32::CHECK2, c32::DECODE2); Class(*c.as_bytes(), *d.as_bytes()) });
    op!(v, "hex.encode32.lo", s, a: V256 => hex::encode_bytes32(s, a, hex::ENCODE_LOWER_LUT));
    op!(v, "hex.encode32.up", s, a: V256 => hex::encode_bytes32(s, a, hex::ENCODE_UPPER_LUT));
    op!(v, "hex.decode32", s, a: V256 => hex::decode_ascii32(s, a));
}
fn perm(v: &mut Vec<Op>) {
    imm1!(v, u64x4_permute, V256: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255);
}
fn blend16(v: &mut Vec<Op>) {
    imm2!(v, u16x8_blend, V128: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255);
}
fn blend32(v: &mut Vec<Op>) {
    imm2!(v, u32x8_blend, V256: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255);
}
#[cfg(target_arch = "aarch64")]
fn neon(v: &mut Vec<Op>) {
    m1!(v, V128: u8x16_reduce_max u8x16_reduce_min);
    m1!(v, V256: u8x32_reduce_max u8x32_reduce_min);
    m2!(v, V256: u8x32_swizzle);
    m2!(v, V64: u8x8_unzip_even);
}
fn misc(v: &mut Vec<Op>) {
    m1!(v, V128: u16x16_from_u8x16);
    op!(v, "hex.decode32x2", s, a: V256, b: V256 => hex::decode_ascii32x2(s, (a, b)));
    op!(v, "V64.bytes", s, a: V64 => a);
    op!(v, "V128.bytes", s, a: V128 => a);
    op!(v, "V256.bytes", s, a: V256 => a);
    op!(v, "V512.bytes", s, a: V512 => a);
    op!(v, "V64.to_u64", s, a: V64 => a.to_u64());
    op!(v, "V128.to_v64x2", s, a: V128 => a.to_v64x2());
    op!(v, "V256.to_v128x2", s, a: V256 => a.to_v128x2());
    op!(v, "V512.to_v256x2", s, a: V512 => a.to_v256x2());
    op!(v, "V256.from_v128x2", s, a: V128, b: V128 => V256::from_v128x2((a, b)));
    op!(v, "V512.from_v256x2", s, a: V256, b: V256 => V512::from_v256x2((a, b)));
    op!(v, "V128.x2", s, a: V128 => a.x2());
    op!(v, "V256.double_bytes", s, a: V128 => V256::double_bytes(*a.as_bytes()));
    op!(v, "V256.x2", s, a: V256 => a.x2());
    op!(v, "V512.double_bytes", s, a: V256 => V512::double_bytes(*a.as_bytes()));
    op!(v, "hex.unhex", s, a: u8 => hex::unhex(a));
    op!(v, "alsw.avgr", s, a: u8, b: u8 => alsw::avgr(a, b));
    op!(v, "alsw.lookup", s, a: Bytes<16>, b: u8 => alsw::lookup(&a.0, b));
    op!(v, "alsw.hash", s, a: Bytes<16>, b: Bytes<16>, c: u8 => alsw::hash(&a.0, c));
    op!(v, "alsw.check", s, a: Bytes<16>, b: Bytes<16>, c: u8 => alsw::check(&a.0, &b.0, c));
    op!(v, "alsw.decode", s, a: Bytes<16>, b: Bytes<16>, c: u8 => alsw::decode(&a.0, &b.0, c));
    op!(v, "sim.u8x16_bitmask", s, a: V128 => vsimd::simulation::u8x16_bitmask(a));
    op!(v, "sim.i16x8_packus", s, a: V128, b: V128 => vsimd::simulation::i16x8_packus(a, b));
    sim!(v, u16x8_shl: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
    sim!(v, u16x8_shr: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
    op!(v, "bswap.single16", s, a: u16 => <u16 as BSwap>::swap_single(a));
    op!(v, "bswap.fall16", s, a: Bytes<10> => swapped::<u16, 10>(a, |p, n, d| bswap_fallback(p, n, d)));
    op!(v, "bswap.simd3_16", s, a: Bytes<6> => swapped::<u16, 6>(a, |p, n, d| bswap_simd(s, p, n, d)));
    op!(v, "bswap.simd37_16", s, a: Bytes<74> => swapped::<u16, 74>(a, |p, n, d| bswap_simd(s, p, n, d)));
    op!(v, "bswap.single32", s, a: u32 => <u32 as BSwap>::swap_single(a));
    op!(v, "bswap.fall32", s, a: Bytes<20> => swapped::<u32, 20>(a, |p, n, d| bswap_fallback(p, n, d)));
    op!(v, "bswap.simd3_32", s, a: Bytes<12> => swapped::<u32, 12>(a, |p, n, d| bswap_simd(s, p, n, d)));
    op!(v, "bswap.simd37_32", s, a: Bytes<148> => swapped::<u32, 148>(a, |p, n, d| bswap_simd(s, p, n, d)));
    op!(v, "bswap.single64", s, a: u64 => <u64 as BSwap>::swap_single(a));
    op!(v, "bswap.fall64", s, a: Bytes<40> => swapped::<u64, 40>(a, |p, n, d| bswap_fallback(p, n, d)));
    op!(v, "bswap.simd3_64", s, a: Bytes<24> => swapped::<u64, 24>(a, |p, n, d| bswap_simd(s, p, n, d)));
    op!(v, "bswap.simd37_64", s, a: Bytes<296> => swapped::<u64, 296>(a, |p, n, d| bswap_simd(s, p, n, d)));
    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
    {
        op!(v, "hexsse2.encode.lo", s, a: V128 => hex::sse2::encode16(SSE2::new(), a, hex::sse2::LOWER_OFFSET));
        op!(v, "hexsse2.encode.up", s, a: V128 => hex::sse2::encode16(SSE2::new(), a, hex::sse2::UPPER_OFFSET));
        op!(v, "hexsse2.decode", s, a: V128 => {
            let (n, f) = hex::sse2::decode_nibbles(SSE2::new(), a);
            if mask::u8x16_highbit_any(SSE2::new(), f) { Err(()) } else { Ok(hex::sse2::merge_bits(SSE2::new(), n)) }
        });
    }
}
pub fn registry() -> Vec<Op> {
    let mut v = vec![];
    basic16(&mut v);
    basic32(&mut v);
    imm16(&mut v);
    imm32(&mut v);
    help16(&mut v);
    help32(&mut v);
    perm(&mut v);
    blend16(&mut v);
    blend32(&mut v);
    misc(&mut v);
    #[cfg(target_arch = "aarch64")]
    neon(&mut v);
    v
}
