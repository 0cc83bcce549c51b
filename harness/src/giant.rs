//! Sources longer than 4 GiB.  A block that leads a machine from its start state back to it, repeated
//! (the same physical pages mapped again and again), then a tail: the machine is deterministic, so the
//! result is that of the block, repeated, then that of the tail.  The destination repeats the same way.

use crate::mem::set_cur;
use crate::ops::{self, Call, OpImpl};
use crate::rng::Rng;
use crate::tables::{Machine, OpFacts, Spec};
use crate::{arg, jstr, num};
use core::ffi::c_void;

extern "C" {
    fn mmap(a: *mut c_void, l: usize, p: i32, f: i32, fd: i32, o: isize) -> *mut c_void;
    fn munmap(a: *mut c_void, l: usize) -> i32;
    fn memfd_create(n: *const core::ffi::c_char, f: u32) -> i32;
    fn ftruncate(fd: i32, n: isize) -> i32;
    fn close(fd: i32) -> i32;
}
const PAGE: usize = 4096;

/// `k` views of one block, then a tail region of `tail` bytes (rounded up to pages), then nothing.
struct View {
    base: *mut u8,
    span: usize,
    block: usize,
    k: usize,
}
impl View {
    /// `own`: a piece of memory for each block, nothing shared (what is worked on in place cannot be).
    fn new(block: usize, k: usize, tail: usize, own: bool) -> Option<View> {
        assert!(block % PAGE == 0);
        let span = block * k + (tail + 2 * PAGE) / PAGE * PAGE;
        unsafe {
            let p = mmap(core::ptr::null_mut(), span + PAGE, 0, 0x2 | 0x20 | 0x4000, -1, 0);
            if p as isize == -1 {
                return None;
            }
            let v = View { base: p.cast(), span, block, k };
            if own {
                if mmap(v.base.cast(), block * k, 3, 0x2 | 0x20 | 0x10, -1, 0) as isize == -1 {
                    return None;
                }
            } else {
                let fd = memfd_create(b"giant\0".as_ptr().cast(), 0);
                if fd < 0 || ftruncate(fd, block as isize) != 0 {
                    return None;
                }
                for i in 0..k {
                    // shared, populated
                    if mmap(v.base.add(i * block).cast(), block, 3, 0x1 | 0x10 | 0x8000, fd, 0) as isize == -1 {
                        close(fd);
                        return None;
                    }
                }
                close(fd);
            }
            let t = v.base.add(block * k);
            if mmap(t.cast(), span - block * k, 3, 0x2 | 0x20 | 0x10, -1, 0) as isize == -1 {
                return None;
            }
            Some(v)
        }
    }
    fn at(&self, i: usize) -> &mut [u8] {
        unsafe { core::slice::from_raw_parts_mut(self.base.add(i * self.block), self.block) }
    }
    fn tail(&self) -> &mut [u8] {
        unsafe { core::slice::from_raw_parts_mut(self.base.add(self.block * self.k), self.span - self.block * self.k) }
    }
}
impl Drop for View {
    fn drop(&mut self) {
        unsafe { munmap(self.base.cast(), self.span + PAGE) };
    }
}

/// A block of the machine: from the start state back to it, whole pages in and out.
fn block(m: &Machine, mid: &str, spec: &Spec, rng: &mut Rng) -> Option<Vec<u8>> {
    const M: usize = 1 << 20;
    let t = match m {
        Machine::Perm(_) => return Some((0..4 * M).map(|_| rng.next() as u8).collect()),
        Machine::Table(t) => t,
    };
    let n = match mid {
        x if x.starts_with("enc_b64") => 3 * M,
        x if x.starts_with("enc_b32") => 5 * M,
        x if x.starts_with("dec_b32") => 8 * M,
        _ => 4 * M,
    };
    let w = if mid == "forgiving" {
        // symbols of whole pages of bytes, spread by white space
        let Some(Machine::Table(s)) = spec.machines.get("dec_b64std") else { return None };
        let g = s.home(n - 4 * PAGE, rng)?;
        let mut w = Vec::with_capacity(n);
        for (i, c) in g.iter().enumerate() {
            // as many white space characters before this symbol as keep the spread even
            while w.len() - i < i * 4 * PAGE / g.len() {
                w.push(b" \t\n\x0c\r"[rng.below(5) as usize]);
            }
            w.push(*c);
        }
        while w.len() < n {
            w.push(b'\n');
        }
        w
    } else {
        t.home(n, rng)?
    };
    let mut s = 0;
    for b in &w {
        s = t.next_state(s, *b)?;
    }
    (s == 0 && w.len() == n).then_some(w)
}

pub fn run(spec: &Spec) -> String {
    let mut rng = Rng::new(num("--seed", 1) as u64 ^ 0x61A7);
    let want: Vec<String> = std::fs::read_to_string(arg("--ops").expect("--ops")).unwrap().split_whitespace().map(|s| s.into()).collect();
    let least = num("--least", 1 << 32);
    let per = num("--tails", 1);
    unsafe { crate::mem::HANG = 150 };
    let reg = ops::registry();
    let (mut viol, mut done, mut bytes, mut skipped, mut calls) = (vec![], vec![], 0u128, vec![], 0u64);
    for name in &want {
        let (op, f) = (reg.iter().find(|o| &o.name == name).expect("driver: operation"), &spec.ops[name]);
        let m = &spec.machines[&f.m];
        match one(op, f, m, spec, least, per, &mut rng, &mut calls) {
            Ok((n, v)) => {
                bytes += n as u128;
                done.push(name.clone());
                viol.extend(v);
            }
            Err(()) => skipped.push(name.clone()),
        }
    }
    let list = |v: &[String]| v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
    format!(
        "{{\"calls\":{calls},\"bytes\":{bytes},\"done\":[{}],\"skipped\":[{}],\"violations\":[{}]}}",
        list(&done), list(&skipped), viol.join(",")
    )
}

fn one(op: &OpImpl, f: &OpFacts, m: &Machine, spec: &Spec, least: usize, per: usize, rng: &mut Rng, calls: &mut u64) -> Result<(usize, Vec<String>), ()> {
    let b = block(m, &f.m, spec, rng).unwrap_or_else(|| panic!("driver: no block for {}", f.m));
    let mut bo = vec![];
    assert!(m.run(&b, &mut bo), "driver: block of {} rejected", f.m);
    let k = least.div_ceil(b.len());
    let inplace = matches!(op.call, Call::InPlace(_));
    let sv = View::new(b.len(), k, 4096, inplace).ok_or(())?;
    sv.at(0).copy_from_slice(&b);
    // what works on its destination in place, or asks for more room than it fills, gets memory of its own
    let own = op.name.contains("par_") || (f.pol != "exact" && f.m == "forgiving");
    let room = if f.pol == "exact" { 0 } else { b.len() * k - bo.len() * k };
    let dv = match op.call {
        Call::Slice(_) => Some(View::new(bo.len(), k, room + 8192, own).ok_or(())?),
        _ => None,
    };
    let (mut viol, mut total) = (vec![], 0);
    for i in 0..per {
        let mut tail = vec![];
        for n in 0..200 {
            // some length near this one has an accepted word
            if let Some(w) = m.word(40 + 16 * i + n + rng.below(3) as usize, 0, rng) {
                tail = w;
                break;
            }
        }
        assert!(!tail.is_empty(), "driver: no tail for {}", f.m);
        let mut bad = None;
        for _ in 0..1000 {
            let mut w = tail.clone();
            let i = rng.below(w.len() as u64) as usize;
            w[i] = rng.next() as u8;
            if !m.run(&w, &mut vec![]) {
                bad = Some(w);
                break;
            }
        }
        let mut to = vec![];
        assert!(m.run(&tail, &mut to));
        let need = bo.len() * k + to.len();
        let src_len = b.len() * k + tail.len();
        // (tail, destination length, accepted)
        let mut cases = vec![(&tail, if f.pol == "exact" { need } else { src_len }, true)];
        if f.pol == "exact" && matches!(op.call, Call::Slice(_)) {
            cases.push((&tail, need - 1, false));
            // enough for the length cut to its low bits
            for cut in [need & 0xffff_ffff, need & 0x7fff_ffff] {
                if cut < need {
                    cases.push((&tail, cut, false));
                }
            }
        }
        if let Some(w) = &bad {
            cases.push((w, if f.pol == "exact" { need } else { src_len }, false));
        }
        for (t, dlen, ok) in cases {
            sv.tail()[..t.len()].copy_from_slice(t);
            let n = b.len() * k + t.len();
            let src: &[u8] = unsafe { core::slice::from_raw_parts(sv.base, n) };
            total += n;
            *calls += 1;
            set_cur(&op.name, src.as_ptr(), n, dlen);
            let mut say = |what: &str, expected: String, got: String| {
                viol.push(format!(
                    "{{\"kind\":\"{}\",\"op\":{},\"src\":\"\",\"src_len\":{n},\"dlen\":{dlen},\"what\":{},\"expected\":{},\"got\":{}}}",
                    if !ok && m.run(t, &mut vec![]) { "short" } else { "result" },
                    jstr(&op.name),
                    jstr(&format!("{what} ({k} blocks of {} bytes, then {} bytes {})", b.len(), t.len(), crate::engine::hex(t))),
                    jstr(&expected), jstr(&got)
                ))
            };
            macro_rules! calm {
                ($e:expr) => {
                    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| $e)) {
                        Ok(r) => r,
                        Err(_) => {
                            say("the call panicked on a source of more than 4 GiB", if ok { "Ok" } else { "Err" }.into(), "panic".into());
                            continue;
                        }
                    }
                };
            }
            match &op.call {
                Call::Test(c) => {
                    if calm!(c(src)) != ok {
                        say("wrong verdict on a source of more than 4 GiB", ok.to_string(), (!ok).to_string());
                    }
                }
                Call::Length(c) => {
                    let r = calm!(c(src));
                    if ok && r != Ok(need) {
                        say("wrong length for a source of more than 4 GiB", need.to_string(), format!("{r:?}"));
                    }
                }
                Call::Slice(c) => {
                    let dv = dv.as_ref().unwrap();
                    for i in 0..if own { k } else { 1 } {
                        dv.at(i).fill(0xA5);
                    }
                    dv.tail()[..to.len()].fill(0xA5);
                    let r = calm!(c(src, dv.base, dlen)).map(|(p, l)| (p as usize - dv.base as usize, l));
                    let expect = if ok { Ok((0, need)) } else { Err(()) };
                    if r != expect {
                        say("wrong outcome for a source of more than 4 GiB", format!("{expect:?}"), format!("{r:?}"));
                    } else if ok {
                        let wrong = (0..if own { k } else { 1 }).find(|i| dv.at(*i) != &bo[..]);
                        if wrong.is_some() || dv.tail()[..to.len()] != to[..] {
                            say("wrong text for a source of more than 4 GiB", "the result of the block repeated, then that of the tail".into(),
                                format!("wrong block: {wrong:?}, tail {}", crate::engine::hex(&dv.tail()[..to.len()])));
                        }
                    }
                }
                Call::InPlace(c) => {
                    for i in 0..k {
                        sv.at(i).copy_from_slice(&b);
                    }
                    let r = calm!(c(sv.base, n)).map(|(p, l)| (p as usize - sv.base as usize, l));
                    let expect = if ok { Ok((0, need)) } else { Err(()) };
                    if r != expect {
                        say("wrong outcome for a source of more than 4 GiB", format!("{expect:?}"), format!("{r:?}"));
                    } else if ok {
                        if let Some(x) = unlike(unsafe { core::slice::from_raw_parts(sv.base, need) }, &bo, &to) {
                            say("wrong text for a source of more than 4 GiB", "the result of the block repeated, then that of the tail".into(), x);
                        }
                    }
                }
                Call::Owned(_) | Call::AppendVec(_) | Call::AppendStr(_) => {
                    let front: &[u8] = if matches!(op.call, Call::Owned(_)) { b"" } else { b"what was there" };
                    let r = match &op.call {
                        Call::Owned(c) => calm!(c(src)),
                        Call::AppendVec(c) => {
                            let mut v = front.to_vec();
                            let r = calm!(c(src, &mut v));
                            if r.is_err() && v != front {
                                say("a failed append changed its destination", "the same contents".into(), format!("{} bytes", v.len()));
                            }
                            r.map(|()| v)
                        }
                        Call::AppendStr(c) => {
                            let mut v = String::from_utf8(front.to_vec()).unwrap();
                            calm!(c(src, &mut v)).map(|()| v.into_bytes())
                        }
                        _ => unreachable!(),
                    };
                    match r {
                        Ok(v) if ok => {
                            if v.len() != front.len() + need {
                                say("wrong length for a source of more than 4 GiB", (front.len() + need).to_string(), v.len().to_string());
                            } else if &v[..front.len()] != front {
                                say("an append changed what was there", "the same contents".into(), crate::engine::hex(&v[..front.len()]));
                            } else if let Some(x) = unlike(&v[front.len()..], &bo, &to) {
                                say("wrong text for a source of more than 4 GiB", "the result of the block repeated, then that of the tail".into(), x);
                            }
                        }
                        r => {
                            if r.is_ok() != ok {
                                say("wrong outcome for a source of more than 4 GiB", if ok { "Ok" } else { "Err" }.into(), if ok { "Err" } else { "Ok" }.into());
                            }
                        }
                    }
                }
            }
        }
    }
    Ok((total, viol))
}

/// Where `r` is not `bo` again and again, then `to`.
fn unlike(r: &[u8], bo: &[u8], to: &[u8]) -> Option<String> {
    let (h, t) = r.split_at(r.len() - to.len());
    let i = h.chunks(bo.len()).position(|c| c != bo);
    (i.is_some() || t != to).then(|| format!("wrong block: {i:?}, tail {}", crate::engine::hex(t)))
}
