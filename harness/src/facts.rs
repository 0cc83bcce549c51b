//! Constants and length functions against the codec facts of the specification.

use crate::ops::{B32, B64};
use crate::rng::Rng;
use crate::tables::{CodecFacts, Spec};
use crate::{jstr, num};
use std::panic::catch_unwind;

fn enc_len(c: &CodecFacts, n: u128) -> u128 {
    c.lens[(n % c.qb) as usize] + n / c.qb * c.q
}
/// Most bytes n symbols can stand for; None when no byte string has an encoding of n symbols.
fn max_dec(c: &CodecFacts, n: u128) -> Option<u128> {
    let r = (0..c.qb).filter(|&r| c.lens[r as usize] == n % c.q && (r > 0 || n % c.q == 0)).max()?;
    Some(n / c.q * c.qb + r)
}

struct Fns {
    name: &'static str,
    enc: Box<dyn Fn(usize) -> usize + std::panic::RefUnwindSafe>,
    est: Option<Box<dyn Fn(usize) -> usize + std::panic::RefUnwindSafe>>,
    charset: Option<Vec<u8>>,
}

pub fn run(spec: &Spec) -> String {
    let full = crate::arg("--range").as_deref() == Some("full");
    let want: Vec<String> = crate::arg("--codecs").unwrap().split(',').map(|s| s.to_string()).collect();
    let mut fns: Vec<Fns> = vec![];
    for (name, c) in B64 {
        fns.push(Fns { name, enc: Box::new(move |n| c.encoded_length(n)), est: Some(Box::new(move |n| c.estimated_decoded_length(n))), charset: Some(c.charset().to_vec()) });
    }
    for (name, c) in B32 {
        fns.push(Fns { name, enc: Box::new(move |n| c.encoded_length(n)), est: Some(Box::new(move |n| c.estimated_decoded_length(n))), charset: Some(c.charset().to_vec()) });
    }
    for name in ["hexlo", "hexup"] {
        fns.push(Fns { name, enc: Box::new(hex_simd::encoded_length), est: None, charset: None });
    }
    let mut rng = Rng::new(num("--seed", 1) as u64);
    let mut points: Vec<usize> = (0..3000).collect();
    if full {
        for i in 0..usize::BITS {
            for d in 0..80usize {
                points.push((1usize << i).wrapping_add(d));
                points.push((1usize << i).wrapping_sub(d));
            }
        }
        for k in [usize::MAX, usize::MAX / 2, usize::MAX / 3, usize::MAX / 4, usize::MAX / 5, usize::MAX / 8, usize::MAX / 2 / 3, usize::MAX / 3 * 2, usize::MAX / 4 * 3, usize::MAX / 5 * 4, usize::MAX / 8 * 5] {
            for d in 0..200usize {
                points.push(k.wrapping_add(d));
                points.push(k.wrapping_sub(d));
            }
        }
        for _ in 0..num("--random", 200_000) {
            let x = rng.next() as usize >> rng.below(usize::BITS as u64);
            points.push(x);
            points.push(!x);
        }
    }
    let mut v: Vec<String> = vec![];
    let mut evals = 0u64;
    let half = usize::MAX / 2;
    let mut bad = |op: String, n: usize, exp: String, got: String| {
        if v.len() < 8 {
            v.push(format!("{{\"kind\":\"result\",\"op\":{},\"src\":\"\",\"dlen\":{n},\"what\":\"wrong length or constant\",\"expected\":{},\"got\":{}}}", jstr(&op), jstr(&exp), jstr(&got)));
        }
    };
    for f in fns.iter().filter(|f| want.iter().any(|w| w == f.name)) {
        let c = &spec.codecs[f.name];
        if let Some(cs) = &f.charset {
            evals += 1;
            if cs != &c.alpha {
                bad(format!("{}.charset", f.name), 0, format!("{:?}", c.alpha), format!("{cs:?}"));
            }
        }
        for &n in &points {
            evals += 1;
            let r = catch_unwind(|| (f.enc)(n)).ok();
            let want = if n <= half { Some(enc_len(c, n as u128)) } else { None };
            if r.map(|x| x as u128) != want {
                bad(format!("{}.encoded_length", f.name), n, format!("{want:?} (None: panic)"), format!("{r:?}"));
            }
            if let (Some(est), true) = (&f.est, full) {
                evals += 1;
                let r = catch_unwind(|| est(n)).ok();
                let m = max_dec(c, n as u128).unwrap_or(0);
                if !matches!(r, Some(x) if x as u128 >= m) {
                    bad(format!("{}.estimated_decoded_length", f.name), n, format!(">= {m}"), format!("{r:?}"));
                }
            }
            if f.name == "hexlo" && full {
                evals += 1;
                let r = catch_unwind(|| hex_simd::decoded_length(n).map_err(|_| ())).ok();
                let want = Some(if n % 2 == 0 { Ok(n / 2) } else { Err(()) });
                if r != want {
                    bad("hex.decoded_length".into(), n, format!("{want:?}"), format!("{r:?}"));
                }
            }
        }
    }
    // a 32-bit word is small enough to go through all of it
    if let Some(stride) = crate::arg("--stride").map(|x| x.parse::<u64>().unwrap()) {
        assert!(usize::BITS == 32);
        let (part, parts) = (num("--part", 0) as u64, num("--parts", 1) as u64);
        let block = 1u64 << 16;
        for f in fns.iter().filter(|f| want.iter().any(|w| w == f.name)) {
            let c = &spec.codecs[f.name];
            let (q, qb) = (c.q as u64, c.qb as u64);
            let lens: Vec<u64> = c.lens.iter().map(|x| *x as u64).collect();
            let maxr: Vec<u64> = (0..q).map(|m| (0..qb).filter(|&r| lens[r as usize] == m && (r > 0 || m == 0)).max().unwrap_or(u64::MAX)).collect();
            let bad_at = |n: u64| -> Option<String> {
                if n <= half as u64 {
                    let e = lens[(n % qb) as usize] + n / qb * q;
                    let g = (f.enc)(n as usize) as u64;
                    if g != e {
                        return Some(format!("encoded_length {g}, expected {e}"));
                    }
                }
                if let Some(est) = &f.est {
                    let r = maxr[(n % q) as usize];
                    let m = if r == u64::MAX { 0 } else { n / q * qb + r };
                    let g = est(n as usize) as u64;
                    if g < m {
                        return Some(format!("estimated_decoded_length {g}, expected >= {m}"));
                    }
                }
                None
            };
            let mut b = part * block;
            while b < 1 << 32 {
                let r = catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut n = b;
                    while n < b + block {
                        if let Some(t) = bad_at(n) {
                            return Some((n, t));
                        }
                        n += stride;
                    }
                    None
                }));
                match r {
                    Ok(None) => evals += block / stride,
                    Ok(Some((n, t))) => {
                        bad(format!("{}.length", f.name), n as usize, "the length the specification gives".into(), t);
                        break;
                    }
                    Err(_) => {
                        bad(format!("{}.length", f.name), b as usize, "no panic in this block of 65536 lengths".into(), "panic".into());
                        break;
                    }
                }
                b += parts * block;
            }
        }
    }
    format!("{{\"calls\":{evals},\"words\":{},\"distinct\":{},\"violations\":[{}],\"samples\":[]}}", points.len(), points.len(), v.join(","))
}
