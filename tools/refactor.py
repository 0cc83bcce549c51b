#!/usr/bin/env python3
"""Edits of the repository that keep its behaviour, for seeing that no check alarms on them.
usage: refactor.py apply [NAME...] (edits /repo: run inside tools/ns.sh) | run CHECK..."""
import subprocess, sys, time, os

R = "/repo/crates/"
EDITS = {}


def edit(name, f, old, new):
    EDITS.setdefault(name, []).append((f, old, new))


# base64: the fallback encoder's inner loops in a helper; the 24-bit loop counted down
edit("b64-encode", "base64-simd/src/encode.rs", """    const L: usize = 4;
    while len >= L * 6 + 2 {
        let mut i = 0;
        while i < L {
            encode_bits48(src, dst, charset);
            src = src.add(6);
            dst = dst.add(8);
            i += 1;
        }
        len -= L * 6;
    }

    while len >= 6 + 2 {
        encode_bits48(src, dst, charset);
        src = src.add(6);
        dst = dst.add(8);
        len -= 6;
    }

    let end = src.add(len / 3 * 3);
    while src < end {
        encode_bits24(src, dst, charset);
        src = src.add(3);
        dst = dst.add(4);
    }
    len %= 3;

    encode_extra(len, src, dst, charset, padding);
}
""", """    let mut groups = len / 3;
    let rest = len - groups * 3;

    // eight bytes are read for six encoded
    while len >= 8 {
        encode_bits48(src, dst, charset);
        src = src.add(6);
        dst = dst.add(8);
        len -= 6;
        groups -= 2;
    }

    for _ in 0..groups {
        encode_bits24(src, dst, charset);
        src = src.add(3);
        dst = dst.add(4);
    }

    encode_extra(rest, src, dst, charset, padding);
}
""")
# the vector loop needs no more than 24 + 4 bytes; enter it through a helper that takes the two first groups
edit("b64-encode", "base64-simd/src/encode.rs", """        for _ in 0..2 {
            encode_bits24(src, dst, charset);
            src = src.add(3);
            dst = dst.add(4);
            len -= 3;
        }
""", """        encode_bits24(src, dst, charset);
        encode_bits24(src.add(3), dst.add(4), charset);
        (src, dst, len) = (src.add(6), dst.add(8), len - 6);
""")
# base64 decoding: validity collected over two vectors, scalar step before the vectors
edit("b64-decode", "base64-simd/src/decode.rs", """    // n*3/4 >= 24+4
    while n >= 38 {
""", """    // two scalar steps while there is plenty
    if n >= 38 + 16 {
        let table = match kind {
            Kind::Standard => STANDARD_DECODE_TABLE.as_ptr(),
            Kind::UrlSafe => URL_SAFE_DECODE_TABLE.as_ptr(),
        };
        for _ in 0..2 {
            decode_ascii8::<true>(src, dst, table)?;
            src = src.add(8);
            dst = dst.add(6);
            n -= 8;
        }
    }

    // n*3/4 >= 24+4
    while n >= 38 {
""")
edit("b64-decode", "base64-simd/src/decode.rs", """    if WRITE {
        dst.cast::<u64>().write_unaligned(y.to_be());
    }

    ensure!(flag != 0xff);
    Ok(())
}
""", """    ensure!(flag != 0xff);
    if WRITE {
        dst.cast::<[u8; 8]>().write(y.to_be_bytes());
    }
    Ok(())
}
""")
edit("b64-decode", "base64-simd/src/decode.rs", """    let m = match n % 4 {
        0 => n / 4 * 3,
        1 => return Err(Error::new()),
        2 => n / 4 * 3 + 1,
        3 => n / 4 * 3 + 2,
        _ => unsafe { core::hint::unreachable_unchecked() },
    };
""", """    ensure!(n % 4 != 1);
    let m = n / 4 * 3 + (n % 4).saturating_sub(1);
""")
# appending: amortised growth
for c in ("base64", "base32", "hex"):
    edit("append", f"{c}-simd/src/heap.rs", "buf.reserve_exact(m);", "buf.reserve(m);")
# forgiving: filter first, then decode, through one helper
edit("forgiving", "base64-simd/src/forgiving.rs", """    let mut vec = Vec::with_capacity(data.len());

    unsafe {
        let len = data.len();
        let src = data.as_ptr();
        let dst = vec.as_mut_ptr();

        copy_nonoverlapping(src, dst, pos);

        let rem = remove_ascii_whitespace_fallback(src.add(pos), len - pos, dst.add(pos));
        debug_assert!(rem <= len - pos);

        let data = slice_mut(dst, pos + rem);
        let ans_len = STANDARD_FORGIVING.decode_inplace(data)?.len();

        vec.set_len(ans_len);
    };

    Ok(vec)
""", """    let mut vec: Vec<u8> = Vec::with_capacity(data.len());
    let (head, tail) = data.split_at(pos);
    vec.extend_from_slice(head);
    vec.extend(tail.iter().copied().filter(|c| !c.is_ascii_whitespace()));
    let ans_len = STANDARD_FORGIVING.decode_inplace(&mut vec)?.len();
    vec.truncate(ans_len);

    Ok(vec)
""")
# parallel: equal chunks in terms of blocks of three, rounded the other way
edit("par", "base64-simd/src/parallel.rs", "        let chunks = (b + p) / p;\n", "        let chunks = b / p + 1 + (b / p) % 7;\n")
# hex: early exit instead of a collected flag, and the other way round
edit("hex", "hex-simd/src/check.rs", """    let mut flag = 0;
    let end = src.add(len);
    while src < end {
        let x = src.read();
        flag |= unhex(x);
        src = src.add(1);
    }
    ensure!(flag != 0xff);
    Ok(())
}

/// FIXME""", """    for _ in 0..len {
        ensure!(src.read().is_ascii_hexdigit());
        src = src.add(1);
    }
    Ok(())
}

/// FIXME""")
edit("hex", "hex-simd/src/check.rs", "use vsimd::hex::unhex;\n", "use vsimd::hex::unhex as digit;\n")
edit("hex", "hex-simd/src/check.rs", "ensure!(unhex(x) != 0xff);", "ensure!(digit(x) < 16);")
edit("hex", "hex-simd/src/decode.rs", """    if len == 16 {
        return decode16(s, src, dst);
    }

    if len == 32 {
        return decode32(s, src, dst);
    }

    let end = src.add(len / 64 * 64);
    while src < end {
        let x0""", """    let end = src.add(len / 64 * 64);
    while src < end {
        let x0""")
edit("hex", "hex-simd/src/decode.rs", """    let z = shl4(y1) | y2;
    dst.write(z);
    y1 | y2
""", """    let bad = y1 | y2;
    dst.write(shl4(y1).wrapping_add(y2 & 0x0f));
    bad
""")
# uuid: separators looked at after the digits
edit("uuid", "uuid-simd/src/parse.rs", """    match [read(src, 8), read(src, 13), read(src, 18), read(src, 23)] {
        [b'-', b'-', b'-', b'-'] => {}
        _ => return Err(Error::new()),
    }

    let mut flag = 0;
""", """    let mut flag = 0;
    for i in [23, 18, 13, 8] {
        if read(src, i) != b'-' {
            flag = 0xff;
        }
    }
""")
# unicode
edit("unicode", "unicode-simd/src/utf32.rs", """    let mut flag = true;

    let end = src.add(len);
    while src < end {
        let x = src.read();
        flag &= is_unicode_scalar_value(x);
        src = src.add(1);
    }

    flag
""", """    let end = src.add(len);
    while src != end {
        if char::from_u32(src.read()).is_none() {
            return false;
        }
        src = src.add(1);
    }
    true
""")
edit("unicode", "unicode-simd/src/utf32.rs", """        y = s.u32x8_max(y, a2);

        src = src.add(8);
    }
""", """        y = s.u32x8_max(a2, y);
        src = src.add(8);

        if !s.v256_all_zero(s.u32x8_lt(s.u32x8_splat(0x11_0000 - 0x800 - 1), y)) {
            return false;
        }
    }
""")
edit("unicode", "unicode-simd/src/utf32.rs", "fn is_unicode_scalar_value(x: u32)", "#[allow(dead_code)]\nfn is_unicode_scalar_value(x: u32)")
# vsimd: byte swaps two vectors at a time, and the rest in an overlapping vector is not attempted
edit("bswap", "vsimd/src/bswap.rs", """    let end = src.add(len / T::LANES * T::LANES);
    while src < end {
        let x = s""", """    while len >= 2 * T::LANES {
        let x = s.v256_load_unaligned(src.cast());
        let z = s.v256_load_unaligned(src.add(T::LANES).cast());
        s.v256_store_unaligned(dst.cast(), <T as BSwap>::swap_simd(s, x));
        s.v256_store_unaligned(dst.add(T::LANES).cast(), <T as BSwap>::swap_simd(s, z));
        src = src.add(2 * T::LANES);
        dst = dst.add(2 * T::LANES);
        len -= 2 * T::LANES;
    }
    let end = src.add(len / T::LANES * T::LANES);
    while src < end {
        let x = s""")
edit("mask", "vsimd/src/mask.rs", "            return s.u8x16_reduce_max(x) >= 0x80;", "            return s.u8x16_reduce_max(x) > 0x7f;")


# selection: null pointer instead of an initial function, acquire/release
edit("dispatch", "vsimd/src/macros.rs", """                use core::sync::atomic::{AtomicPtr, Ordering::Relaxed};

                static IFUNC: AtomicPtr<()> = AtomicPtr::new(init_ifunc as *mut ());
""", """                use core::sync::atomic::{AtomicPtr, Ordering};

                static IFUNC: AtomicPtr<()> = AtomicPtr::new(core::ptr::null_mut());
""")
edit("dispatch", "vsimd/src/macros.rs", """                #[inline]
                unsafe fn init_ifunc($($arg_name: $arg_type),*) -> $ret {
                    let f = resolve();
                    IFUNC.store(f as *mut (), Relaxed);
                    f($($arg_name),*)
                }
""", """                #[cold]
                fn init_ifunc() -> *mut () {
                    let f = resolve() as *mut ();
                    IFUNC.store(f, Ordering::Release);
                    f
                }
""")
edit("dispatch", "vsimd/src/macros.rs", """                    let f: unsafe fn($($arg_type),*) -> $ret = core::mem::transmute(IFUNC.load(Relaxed));
                    f($($arg_name),*)
""", """                    let mut p = IFUNC.load(Ordering::Acquire);
                    if p.is_null() {
                        p = init_ifunc();
                    }
                    let f: unsafe fn($($arg_type),*) -> $ret = core::mem::transmute(p);
                    f($($arg_name),*)
""")


def apply(names):
    for n in names or EDITS:
        for f, old, new in EDITS[n]:
            p = R + f
            x = open(p).read()
            if old not in x:
                raise SystemExit(f"{n}: {f}: not found: {old[:60]!r}")
            open(p, "w").write(x.replace(old, new))


if sys.argv[1] == "apply":
    apply(sys.argv[2:])
else:
    apply(os.environ.get("EDITS", "").split())
    for p in sys.argv[2:] or [f"C{i:02}" for i in range(1, 23)]:
        t = time.time()
        r = subprocess.run(["python3", "check.py", p], cwd="/verif", env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1"), capture_output=True, text=True)
        print(time.strftime("%H:%M:%S"), p, r.returncode, f"{time.time()-t:.0f}s", "" if r.returncode == 0 else r.stdout[-1500:] + r.stderr[-500:], flush=True)
