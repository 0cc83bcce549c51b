//! Families of input words.  Every family draws its words from the machine itself
//! (accepted words, then disturbed), so it needs no knowledge of the encoding.

use crate::engine::Engine;
use crate::ops::OpImpl;
use crate::tables::{Machine, OpFacts};

pub struct Params {
    pub max_len: usize,
    pub per_len: usize,
    pub corrupt_lens: Vec<usize>,
    pub corrupt_values: usize, // 256: all
    pub random: usize,
    pub large: Vec<usize>,
    pub deep: u8,
    pub step: usize,
    pub cover: usize,
    /// words of middling lengths, two per residue of the widest loops
    pub middling: usize,
    /// pairs of equal or random bytes at each of the vector distances
    pub pairs: usize,
    /// four-byte units beyond the lower range
    pub units: u64,
}

const APART: [usize; 12] = [1, 2, 3, 4, 5, 8, 12, 16, 24, 32, 48, 64];

type Group<'a> = [(&'a OpImpl, OpFacts)];

fn modes(m: &Machine) -> Vec<u32> {
    if m.has_silent() {
        vec![0, 7, 50]
    } else {
        vec![0]
    }
}

pub fn lengths(e: &mut Engine, m: &Machine, g: &Group, p: &Params) {
    for n in (0..=p.max_len).step_by(p.step) {
        for mode in modes(m) {
            for _ in 0..p.per_len {
                let mut rng = e.rng.clone();
                let w = m.word(n, mode, &mut rng);
                e.rng = rng;
                if let Some(w) = w {
                    e.word(m, g, &w, p.deep);
                } else {
                    break;
                }
            }
        }
        // same length, no care for validity
        let w = e.rng.bytes(n);
        e.word(m, g, &w, p.deep.min(1));
    }
}

pub fn corrupt(e: &mut Engine, m: &Machine, g: &Group, p: &Params) {
    for &n in &p.corrupt_lens {
        for mode in modes(m) {
            let mut rng = e.rng.clone();
            let w = m.word(n, mode, &mut rng);
            e.rng = rng;
            let Some(mut w) = w else { continue };
            e.word(m, g, &w, 1);
            for pos in 0..w.len() {
                let keep = w[pos];
                if p.corrupt_values >= 256 {
                    for b in 0..=255u8 {
                        w[pos] = b;
                        e.word(m, g, &w, 0);
                    }
                } else {
                    for _ in 0..p.corrupt_values {
                        w[pos] = e.rng.next() as u8;
                        e.word(m, g, &w, 0);
                    }
                    for b in [keep ^ 0x20, keep ^ 0x80, keep.wrapping_add(1), keep.wrapping_sub(1), b'='] {
                        w[pos] = b;
                        e.word(m, g, &w, 0);
                    }
                }
                w[pos] = keep;
                // two bytes some distance apart
                for d in APART {
                    if m.accepts_all() || pos + d >= w.len() {
                        break;
                    }
                    let other = w[pos + d];
                    for i in 0..p.pairs {
                        let b = match i % 3 {
                            0 => e.rng.next() as u8 | 0x80,
                            1 => [b'=', 0, 0xff, 0x7f, b' ', b'-'][e.rng.below(6) as usize],
                            _ => keep ^ (1 << e.rng.below(8)),
                        };
                        w[pos] = b;
                        w[pos + d] = if i % 3 == 2 { other ^ b ^ keep } else if e.rng.below(3) > 0 { b } else { e.rng.next() as u8 };
                        e.word(m, g, &w, 0);
                    }
                    w[pos] = keep;
                    w[pos + d] = other;
                }
                // drop one byte, double one byte, swap two neighbours
                let mut v = w.clone();
                v.remove(pos);
                e.word(m, g, &v, 0);
                let mut v = w.clone();
                v.insert(pos, keep);
                e.word(m, g, &v, 0);
                if pos + 1 < w.len() {
                    let mut v = w.clone();
                    v.swap(pos, pos + 1);
                    e.word(m, g, &v, 0);
                }
                if e.full() {
                    return;
                }
            }
            // prefixes and suffixes
            for k in 0..=w.len() {
                let v = w[..k].to_vec();
                e.word(m, g, &v, 0);
                let v = w[k..].to_vec();
                e.word(m, g, &v, 0);
            }
        }
    }
}

pub fn short(e: &mut Engine, m: &Machine, g: &Group, _p: &Params) {
    e.word(m, g, &[], 2);
    for a in 0..=255u8 {
        e.word(m, g, &[a], 2);
    }
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            e.word(m, g, &[a, b], 0);
        }
    }
}

pub fn fill(e: &mut Engine, m: &Machine, g: &Group, p: &Params) {
    for b in 0..=255u8 {
        for n in [1, 3, 5, 8, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64, 65, 72, 96, 120, 128, 160, 256] {
            if n > p.max_len {
                break;
            }
            e.word(m, g, &vec![b; n], 0);
        }
    }
}

pub fn random(e: &mut Engine, m: &Machine, g: &Group, p: &Params) {
    let ms = modes(m);
    for i in 0..p.random {
        let n = e.rng.below(p.max_len as u64 + 1) as usize;
        let mode = ms[i % ms.len()];
        let mut rng = e.rng.clone();
        let w = m.word(n, mode, &mut rng);
        e.rng = rng;
        let Some(mut w) = w else { continue };
        let k = e.rng.below(4) as usize;
        for _ in 0..k {
            if !w.is_empty() {
                let pos = if e.rng.below(3) == 0 { w.len() - 1 - e.rng.below(w.len().min(9) as u64) as usize } else { e.rng.below(w.len() as u64) as usize };
                w[pos] = match e.rng.below(4) {
                    0 => w[e.rng.below(w.len() as u64) as usize],
                    1 => w[pos] ^ (1 << e.rng.below(8)),
                    2 => b'=',
                    _ => e.rng.next() as u8,
                };
            }
        }
        e.word(m, g, &w, 1);
    }
}

pub fn large(e: &mut Engine, m: &Machine, g: &Group, p: &Params) {
    // every residue of loops up to 256 bytes wide, behind blocks of kilobytes
    for i in 0..p.middling {
        let ms = modes(m);
        let mode = ms[e.rng.below(ms.len() as u64) as usize];
        let n = [256, 512, 1024, 2048, 4096][e.rng.below(5) as usize] + i % 257;
        let mut rng = e.rng.clone();
        let w = m.word(n, mode, &mut rng);
        e.rng = rng;
        let Some(mut w) = w else { continue };
        e.word(m, g, &w, 1);
        if !m.accepts_all() && !w.is_empty() {
            for pos in [w.len() - 1, w.len() - 1 - e.rng.below(w.len().min(70) as u64) as usize, e.rng.below(w.len() as u64) as usize] {
                let keep = w[pos];
                w[pos] = match e.rng.below(3) {
                    0 => keep ^ 0x80,
                    1 => b'=',
                    _ => e.rng.next() as u8,
                };
                e.word(m, g, &w, 0);
                w[pos] = keep;
            }
        }
    }
    for &n in &p.large {
        for mode in modes(m) {
            let mut rng = e.rng.clone();
            let w = m.word(n, mode, &mut rng);
            e.rng = rng;
            if let Some(mut w) = w {
                e.word(m, g, &w, 1);
                // one disturbed byte far inside, near the front, near the end
                if !m.accepts_all() {
                    for pos in [n / 2, n / 3, n - 1, n - n.min(9), n.min(40) - 1] {
                        let keep = w[pos];
                        for b in [0x80u8, keep ^ 0x80, b'=', e.rng.next() as u8] {
                            w[pos] = b;
                            e.word(m, g, &w, 0);
                        }
                        w[pos] = keep;
                    }
                }
            }
        }
    }
}

/// Every transition of the machine, in every quarter of a vector: a prefix that leads back to the
/// start, the shortest way to the state, the byte, a continuation to acceptance where there is one.
pub fn cover(e: &mut Engine, m: &Machine, g: &Group, p: &Params) {
    let Machine::Table(t) = m else { return };
    let access = t.access();
    let mut total = 0usize;
    for a in access.iter().flatten() {
        let _ = a;
        total += 256;
    }
    // machines with very many transitions are sampled down to a budget
    let budget = p.cover.max(1);
    let stride = total.div_ceil(budget).max(1);
    let rounds = (budget / total.max(1)).clamp(1, 60);
    let mut i = e.rng.below(stride as u64) as usize;
    let end = total * rounds;
    while i < end {
        let i0 = i % total;
        let (s, b) = (i0 / 256, (i0 % 256) as u8);
        i += stride;
        let Some(Some(acc)) = access.get(s) else { continue };
        let mut rng = e.rng.clone();
        let back = [0usize, 16, 32, 40, 64, 100][rng.below(6) as usize];
        let mut w = t.home(back, &mut rng).unwrap_or_default();
        w.extend_from_slice(acc);
        w.push(b);
        if let Some(n) = t.next_state(s, b) {
            let len = rng.below(80) as usize;
            t.extend(&mut w, n, len, &mut rng);
        } else {
            let k = rng.below(40) as usize;
            let tail = t.word(k, 0, &mut rng);
            w.extend(tail.unwrap_or_default());
        }
        e.rng = rng;
        e.word(m, g, &w, 0);
        if e.full() {
            return;
        }
    }
}

/// Words that walk along the edges of the accepted byte ranges (and 00 / ff), with at most one
/// step over an edge.
pub fn edges(e: &mut Engine, m: &Machine, g: &Group, p: &Params) {
    let Machine::Table(t) = m else { return };
    let ed = t.edges();
    for _ in 0..p.random {
        let mut rng = e.rng.clone();
        let n = rng.below(p.max_len.min(200) as u64 + 1) as usize / 4 * 4 + rng.below(5) as usize % 4 * (rng.below(2) as usize);
        let bad = if n > 0 && rng.below(2) == 0 { Some(rng.below(n as u64) as usize) } else { None };
        let w = t.edge_word(&ed, n, bad, &mut rng);
        e.rng = rng;
        if let Some(w) = w {
            e.word(m, g, &w, 0);
        }
        if e.full() {
            return;
        }
    }
}

/// Four-byte units, one machine run each: every value of the lower range and a sample of the others, at any place
/// among accepted units (the machine is back at its start after every accepted unit, law `Blocks`).
pub fn units(e: &mut Engine, m: &Machine, g: &Group, p: &Params) {
    let low: u64 = 0x0012_0000;
    let n = low + p.units;
    let mut buf: Vec<u32> = vec![];
    let mut out = vec![];
    let mut rng = e.rng.clone();
    for i in 0..n {
        if i % 512 == 0 {
            let k = 1 + rng.below(100) as usize;
            let Some(w) = m.word(4 * k, 0, &mut rng) else { continue };
            buf = w.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        }
        let x = match i {
            _ if i < low => i as u32,
            _ => match rng.below(4) {
                0 => rng.next() as u32,
                1 => (rng.next() as u32) & 0x001f_ffff,
                2 => [0xd800u32, 0xdfff, 0x0010_ffff, 0x0011_0000, 0xffff][rng.below(5) as usize] ^ 1 << rng.below(32),
                _ => (1 << rng.below(32)) | (1 << rng.below(32)) | (1 << rng.below(32)),
            },
        };
        let want = m.run(&x.to_le_bytes(), &mut out);
        let pos = rng.below(buf.len() as u64) as usize;
        let skip = rng.below(pos as u64 + 1) as usize;
        let keep = std::mem::replace(&mut buf[pos], x);
        let s = unsafe { core::slice::from_raw_parts(buf[skip..].as_ptr().cast::<u8>(), 4 * (buf.len() - skip)) };
        for (op, _) in g.iter() {
            if let crate::ops::Call::Test(call) = &op.call {
                e.calls += 1;
                crate::mem::set_cur(&op.name, s.as_ptr(), s.len(), 0);
                if call(s) != want {
                    let w: Vec<u8> = buf[skip..].iter().flat_map(|x| x.to_le_bytes()).collect();
                    e.word(m, g, &w, 0);
                }
            }
        }
        buf[pos] = keep;
        if e.full() {
            break;
        }
    }
    e.rng = rng;
}
