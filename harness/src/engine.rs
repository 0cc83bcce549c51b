//! Runs the real operations in lockstep with the specification's machines.

use crate::mem::{set_cur, Arena, Place, CANARY};
use crate::ops::{Call, OpImpl, SliceRet};
use crate::rng::Rng;
use crate::tables::{Machine, OpFacts, Spec};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Violation {
    pub kind: &'static str,
    pub op: String,
    pub src: Vec<u8>,
    pub dlen: usize,
    pub what: String,
    pub expected: String,
    pub got: String,
}

pub fn hex(b: &[u8]) -> String {
    let d = b"0123456789abcdef";
    let mut v = Vec::with_capacity(b.len() * 2);
    for &x in b {
        v.push(d[(x >> 4) as usize]);
        v.push(d[(x & 15) as usize]);
    }
    String::from_utf8(v).unwrap()
}
fn clip(b: &[u8]) -> String {
    if b.len() <= 400 {
        hex(b)
    } else {
        format!("{}..({} bytes)", hex(&b[..400]), b.len())
    }
}

pub struct Engine<'a> {
    pub spec: &'a Spec,
    pub rng: Rng,
    pub calls: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub short_dst: u64,
    pub words: u64,
    pub distinct: HashSet<u64>,
    pub violations: Vec<Violation>,
    pub samples: Vec<String>,
    pub per_op: BTreeMap<String, u64>,
    /// kinds of deviation to report: result, short, memory
    pub kinds: Vec<String>,
    /// compare only success/failure and length
    pub verdict_only: bool,
    /// report a wrong result only if the copying form ("copy") or a roomy destination ("larger") gives another one
    pub confirm: String,
    pub registry: Vec<OpImpl>,
    pub limit: usize,
    /// what the last slice call did: tag, length, right bytes, touched anything behind the result
    pub last: (&'static str, usize, bool, bool),
    pub rec: Option<Recorder>,
    src_arena: Arena,
    dst_arena: Arena,
    out: Vec<u8>,
    fill: u8,
}

fn hash(b: &[u8], seed: u64) -> u64 {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    (h ^ b.len() as u64).wrapping_mul(0xff51_afd7_ed55_8ccd)
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Writes what the real code did, one event per call, for validation by TLC (spec/Trace.tla).
pub struct Recorder {
    pub file: std::io::BufWriter<std::fs::File>,
    pub n: u64,
    pub limit: u64,
    pub every: u64,
    pub seen: u64,
}
pub fn jarr(b: &[u8]) -> String {
    let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}
impl Recorder {
    pub fn put(&mut self, op: &str, src: &[u8], dlen: usize, tag: &str, out: &[u8]) {
        use std::io::Write;
        self.seen += 1;
        if self.n >= self.limit || src.len() > 160 || out.len() > 400 || self.seen % self.every != 0 {
            return;
        }
        self.n += 1;
        writeln!(
            self.file,
            "{{\"op\":\"{op}\",\"src\":{},\"dlen\":{dlen},\"tag\":\"{tag}\",\"out\":{}}}",
            jarr(src),
            jarr(out)
        )
        .unwrap();
    }
}

impl<'a> Engine<'a> {
    pub fn new(spec: &'a Spec, seed: u64, cap: usize) -> Engine<'a> {
        Engine {
            spec,
            rng: Rng::new(seed),
            calls: 0,
            accepted: 0,
            rejected: 0,
            short_dst: 0,
            words: 0,
            distinct: HashSet::new(),
            violations: vec![],
            samples: vec![],
            per_op: BTreeMap::new(),
            kinds: vec![],
            verdict_only: false,
            confirm: String::new(),
            registry: vec![],
            limit: 8,
            last: ("", 0, false, false),
            rec: None,
            src_arena: Arena::with_view(cap),
            dst_arena: Arena::new(cap * 2 + 8192),
            out: vec![],
            fill: 0x5a,
        }
    }

    pub fn full(&self) -> bool {
        self.violations.len() >= self.limit
    }

    fn fail(&mut self, kind: &'static str, op: &OpImpl, src: &[u8], dlen: usize, what: &str, expected: String, got: String) {
        if !self.kinds.is_empty() && !self.kinds.iter().any(|k| k == kind) {
            return;
        }
        if self.violations.len() < self.limit {
            self.violations.push(Violation { kind, op: op.name.clone(), src: src.to_vec(), dlen, what: what.into(), expected, got });
        }
    }

    /// Outcome of a slice operation with `dlen` bytes of destination, without judging it.
    fn plain(call: &dyn Fn(&[u8], *mut u8, usize) -> SliceRet, w: &[u8], dlen: usize) -> String {
        let mut d = vec![0u8; dlen + 8];
        let s: Vec<u64> = {
            let mut v = vec![0u64; w.len() / 8 + 1];
            unsafe { core::ptr::copy_nonoverlapping(w.as_ptr(), v.as_mut_ptr().cast::<u8>(), w.len()) };
            v
        };
        let src = unsafe { core::slice::from_raw_parts(s.as_ptr().cast::<u8>(), w.len()) };
        let p = d.as_mut_ptr();
        let p = unsafe { p.add((8 - p as usize % 8) % 8) };
        match catch_unwind(AssertUnwindSafe(|| call(src, p, dlen))) {
            Err(_) => "panic".into(),
            Ok(Err(())) => "err".into(),
            Ok(Ok((q, n))) => format!("ok {}", hex(unsafe { core::slice::from_raw_parts(q, n.min(dlen)) })),
        }
    }
    /// Does the deviation of `op` on `w` (outcome `got`) concern the property under check?
    fn confirmed(&self, op: &OpImpl, f: &OpFacts, w: &[u8], got: &str) -> bool {
        match (self.confirm.as_str(), &op.call) {
            ("copy", Call::InPlace(_)) => {
                let name = op.name.replace("_raw_inplace", "").replace("_inplace", "");
                match self.registry.iter().find(|o| o.name == name) {
                    Some(OpImpl { call: Call::Slice(c), .. }) => Self::plain(c, w, w.len()) != got,
                    _ => true,
                }
            }
            ("larger", Call::Slice(c)) if f.form == "slice" => Self::plain(c, w, (w.len() * 2 + 300) / 4 * 4) != got,
            _ => true,
        }
    }

    /// Expected result of machine `m` on `w`, left in self.out.
    pub fn expect(&mut self, m: &Machine, w: &[u8]) -> bool {
        let mut out = std::mem::take(&mut self.out);
        let ok = m.run(w, &mut out);
        self.out = out;
        self.words += 1;
        if self.distinct.len() < 1_500_000 {
            self.distinct.insert(hash(w, m as *const _ as u64));
        }
        ok
    }

    /// A copy of `w` in memory the operation can read but not write.
    fn place_src(&mut self, w: &[u8], place: Place, unit: usize) -> *const u8 {
        let p = self.src_arena.at(w.len(), place, unit);
        unsafe { core::ptr::copy_nonoverlapping(w.as_ptr(), p, w.len()) };
        self.src_arena.seen(p)
    }

    /// Prefill a destination block and canaries around it.
    fn place_dst(&mut self, len: usize, place: Place, unit: usize) -> *mut u8 {
        self.fill = if self.fill == 0x5a { 0xa5 } else { 0x5a };
        let p = self.dst_arena.at(len, place, unit);
        let (lo, hi) = self.dst_arena.bounds();
        unsafe {
            let a = core::cmp::max(p as usize - lo as usize, CANARY) - CANARY;
            let a = lo.add(a);
            let b = lo.add(core::cmp::min(p as usize - lo as usize + len + CANARY, hi as usize - lo as usize));
            core::ptr::write_bytes(a, self.fill, b as usize - a as usize);
        }
        p
    }
    fn canaries_ok(&self, p: *mut u8, len: usize) -> bool {
        let (lo, hi) = self.dst_arena.bounds();
        let before = core::cmp::min(p as usize - lo as usize, CANARY);
        let after = core::cmp::min(hi as usize - p as usize - len, CANARY);
        unsafe {
            (1..=before).all(|i| *p.sub(i) == self.fill) && (0..after).all(|i| *p.add(len + i) == self.fill)
        }
    }

    fn tag(ok: bool, out: &[u8]) -> String {
        if ok {
            format!("ok {}", clip(out))
        } else {
            "err".into()
        }
    }

    /// One call of a slice operation with the given destination length and placements.
    pub fn slice_call(&mut self, op: &OpImpl, f: &OpFacts, w: &[u8], accept: bool, dlen: usize, sp: Place, dp: Place) {
        let Call::Slice(call) = &op.call else { unreachable!() };
        let s = self.place_src(w, sp, f.unit);
        let d = self.place_dst(dlen, dp, f.unit);
        set_cur(&op.name, s, w.len(), dlen);
        self.calls += 1;
        let src = unsafe { core::slice::from_raw_parts(s, w.len()) };
        let r: Result<SliceRet, _> = catch_unwind(AssertUnwindSafe(|| call(src, d, dlen)));
        let fits = match f.pol.as_str() {
            "exact" => self.out.len() <= dlen,
            "srclen" | "panic" => w.len() <= dlen,
            _ => true,
        };
        let want_ok = accept && fits;
        let want_panic = f.pol == "panic" && !fits;
        let out = std::mem::take(&mut self.out);
        let exp = || if want_panic { "panic".to_string() } else { Self::tag(want_ok, &out) };
        let range = d as usize..=d as usize + dlen;
        let k = if fits { "result" } else { "short" };
        if let Some(rec) = &mut self.rec {
            let (t, o): (&str, &[u8]) = match &r {
                Err(_) => ("panic", &[]),
                Ok(Err(())) => ("err", &[]),
                Ok(Ok((_, 0))) => ("ok", &[]),
                Ok(Ok((p, n))) if range.contains(&(*p as usize)) && range.contains(&(*p as usize + *n)) => ("ok", unsafe { core::slice::from_raw_parts(*p, *n) }),
                _ => ("stray", &[]),
            };
            rec.put(&op.name, w, dlen, t, o);
        }
        self.last = match &r {
            Err(_) => ("panic", 0, false, false),
            Ok(Err(())) => ("err", 0, false, false),
            Ok(Ok((p, n))) => {
                let inside = *n == 0 || (range.contains(&(*p as usize)) && range.contains(&(*p as usize + *n)));
                let same = inside && (*n == 0 || unsafe { core::slice::from_raw_parts(*p, *n) } == &out[..]) && *n == out.len();
                ("ok", *n, same, ((*n).min(dlen)..dlen).any(|i| unsafe { *d.add(i) } != self.fill))
            }
        };
        match r {
            Err(e) => {
                if !want_panic {
                    let t = panic_text(e);
                    self.fail(if fits { "panic" } else { "spanic" }, op, w, dlen, "panicked", exp(), format!("panic: {t}"));
                }
            }
            Ok(Err(())) => {
                if (want_ok || want_panic) && self.confirmed(op, f, w, "err") {
                    self.fail(k, op, w, dlen, "returned Err", exp(), "err".into());
                }
            }
            Ok(Ok((p, n))) => {
                let got = if n <= dlen.max(out.len()) && (n == 0 || range.contains(&(p as usize)) && range.contains(&(p as usize + n))) {
                    unsafe { core::slice::from_raw_parts(if n == 0 { d as *const u8 } else { p }, n) }
                } else {
                    &[]
                };
                let other = n > 0 && p != d as *const u8;
                if want_panic || !want_ok || n != out.len() || (!self.verdict_only && got != &out[..]) || other {
                    let g = format!("ok {}", clip(got));
                    if other {
                        self.fail("prefix", op, w, dlen, "the returned slice is not the prefix of the destination", exp(), g);
                    } else if (f.pol == "srclen" && !fits) || self.confirmed(op, f, w, &format!("ok {}", hex(got))) {
                        self.fail(k, op, w, dlen, "wrong result", exp(), g);
                    }
                } else if let Some(i) = (if f.pol == "srclen" { w.len() } else { n }..dlen).find(|i| unsafe { *d.add(*i) } != self.fill) {
                    self.fail("excess", op, w, dlen, "wrote to the destination behind the result", "untouched".into(), format!("byte {i} of the destination modified, result has {n} bytes"));
                }
            }
        }
        self.out = out;
        if fits {
            if accept {
                self.accepted += 1
            } else {
                self.rejected += 1
            }
        } else {
            self.short_dst += 1;
        }
        if unsafe { core::slice::from_raw_parts(s, w.len()) } != w {
            self.fail("memory", op, w, dlen, "source modified", "unchanged".into(), "modified".into());
        }
        if !self.canaries_ok(d, dlen) {
            self.fail("memory", op, w, dlen, "wrote outside the destination", "untouched".into(), "modified".into());
        }
    }

    pub fn inplace_call(&mut self, op: &OpImpl, f: &OpFacts, w: &[u8], accept: bool, dp: Place) {
        let Call::InPlace(call) = &op.call else { unreachable!() };
        let d = self.place_dst(w.len(), dp, f.unit);
        unsafe { core::ptr::copy_nonoverlapping(w.as_ptr(), d, w.len()) };
        set_cur(&op.name, w.as_ptr(), w.len(), 0);
        self.calls += 1;
        let r: Result<SliceRet, _> = catch_unwind(AssertUnwindSafe(|| call(d, w.len())));
        let out = std::mem::take(&mut self.out);
        let exp = || Self::tag(accept, &out);
        let range = d as usize..=d as usize + w.len();
        if let Some(rec) = &mut self.rec {
            let (t, o): (&str, &[u8]) = match &r {
                Err(_) => ("panic", &[]),
                Ok(Err(())) => ("err", &[]),
                Ok(Ok((_, 0))) => ("ok", &[]),
                Ok(Ok((p, n))) if range.contains(&(*p as usize)) && range.contains(&(*p as usize + *n)) => ("ok", unsafe { core::slice::from_raw_parts(*p, *n) }),
                _ => ("stray", &[]),
            };
            rec.put(&op.name, w, 0, t, o);
        }
        match r {
            Err(e) => {
                if self.confirmed(op, f, w, "panic") {
                    self.fail("panic", op, w, 0, "panicked", exp(), format!("panic: {}", panic_text(e)))
                }
            }
            Ok(Err(())) => {
                if accept && self.confirmed(op, f, w, "err") {
                    self.fail("result", op, w, 0, "returned Err", exp(), "err".into());
                }
            }
            Ok(Ok((p, n))) => {
                let inside = n == 0 || (range.contains(&(p as usize)) && range.contains(&(p as usize + n)));
                let got: &[u8] = if inside && n > 0 { unsafe { core::slice::from_raw_parts(p, n) } } else { &[] };
                let other = n > 0 && p != d as *const u8;
                let g = format!("ok {}", clip(got));
                if other || !inside {
                    self.fail("prefix", op, w, 0, "the returned slice is not the start of the buffer", exp(), g);
                } else if (!accept || got != &out[..]) && self.confirmed(op, f, w, &format!("ok {}", hex(got))) {
                    self.fail("result", op, w, 0, "wrong result", exp(), g);
                }
            }
        }
        self.out = out;
        if accept {
            self.accepted += 1
        } else {
            self.rejected += 1
        }
        if !self.canaries_ok(d, w.len()) {
            self.fail("memory", op, w, 0, "wrote outside the buffer", "untouched".into(), "modified".into());
        }
    }

    pub fn other_call(&mut self, op: &OpImpl, f: &OpFacts, w: &[u8], accept: bool, sp: Place) {
        let s = self.place_src(w, sp, f.unit);
        let src = unsafe { core::slice::from_raw_parts(s, w.len()) };
        set_cur(&op.name, s, w.len(), 0);
        self.calls += 1;
        let out = std::mem::take(&mut self.out);
        match &op.call {
            Call::Owned(call) => {
                let r = catch_unwind(AssertUnwindSafe(|| call(src)));
                if let Some(rec) = &mut self.rec {
                    match &r {
                        Err(_) => rec.put(&op.name, w, 0, "panic", &[]),
                        Ok(Err(())) => rec.put(&op.name, w, 0, "err", &[]),
                        Ok(Ok(v)) => rec.put(&op.name, w, 0, "ok", v),
                    }
                }
                let exp = || Self::tag(accept, &out);
                match r {
                    Err(e) => self.fail("panic", op, w, 0, "panicked", exp(), format!("panic: {}", panic_text(e))),
                    Ok(Err(())) => {
                        if accept {
                            self.fail("result", op, w, 0, "returned Err", exp(), "err".into())
                        }
                    }
                    Ok(Ok(v)) => {
                        if !accept || v != out {
                            self.fail("result", op, w, 0, "wrong result", exp(), format!("ok {}", clip(&v)))
                        }
                    }
                }
            }
            Call::AppendVec(call) => {
                let pn = self.rng.below(40) as usize;
                let pre = self.rng.bytes(pn);
                let extra = [0, 0, 1, out.len() / 2, out.len(), out.len() + 7][self.rng.below(6) as usize];
                let mut v = Vec::with_capacity(pn + extra);
                v.extend_from_slice(&pre);
                let r = catch_unwind(AssertUnwindSafe(|| call(src, &mut v)));
                let mut want = pre.clone();
                if accept {
                    want.extend_from_slice(&out);
                }
                let ok = matches!(r, Ok(Ok(())));
                let r_panic = r.is_err();
                if r.is_err() || ok != accept || v != want {
                    let g = match r {
                        Err(e) => format!("panic: {}", panic_text(e)),
                        Ok(x) => format!("{:?} vec={}", x, clip(&v)),
                    };
                    self.fail(if r_panic { "panic" } else { "result" }, op, w, 0, "wrong append", format!("ok={accept} vec={}", clip(&want)), g);
                }
            }
            Call::AppendStr(call) => {
                let pre: String = ["", "x", "é", "日本語", "a\u{10ffff}b", "0123456789abcdef0123456789abcdef"][self.rng.below(6) as usize].into();
                let mut v = pre.clone();
                let r = catch_unwind(AssertUnwindSafe(|| call(src, &mut v)));
                let mut want = pre.into_bytes();
                if accept {
                    want.extend_from_slice(&out);
                }
                let ok = matches!(r, Ok(Ok(())));
                let r_panic = r.is_err();
                if r.is_err() || ok != accept || v.as_bytes() != want || std::str::from_utf8(v.as_bytes()).is_err() {
                    let g = match r {
                        Err(e) => format!("panic: {}", panic_text(e)),
                        Ok(x) => format!("{:?} string={}", x, clip(v.as_bytes())),
                    };
                    self.fail(if r_panic { "panic" } else { "result" }, op, w, 0, "wrong append", format!("ok={accept} string={}", clip(&want)), g);
                }
            }
            Call::Test(call) => {
                let r = catch_unwind(AssertUnwindSafe(|| call(src)));
                if let Some(rec) = &mut self.rec {
                    let t = match &r {
                        Err(_) => "panic",
                        Ok(true) => "ok",
                        Ok(false) => "err",
                    };
                    rec.put(&op.name, w, 0, t, &[]);
                }
                match r {
                    Err(e) => self.fail("panic", op, w, 0, "panicked", format!("{accept}"), format!("panic: {}", panic_text(e))),
                    Ok(b) => {
                        if b != accept {
                            self.fail("result", op, w, 0, "wrong verdict", format!("{accept}"), format!("{b}"))
                        }
                    }
                }
            }
            Call::Length(call) => {
                let r = catch_unwind(AssertUnwindSafe(|| call(src)));
                if let Some(rec) = &mut self.rec {
                    match &r {
                        Err(_) => rec.put(&op.name, w, 0, "panic", &[]),
                        Ok(Err(())) => rec.put(&op.name, w, 0, "err", &[]),
                        Ok(Ok(n)) => rec.put(&op.name, w, *n, "ok", &[]),
                    }
                }
                match r {
                    Err(e) => self.fail("panic", op, w, 0, "panicked", format!("{}", out.len()), format!("panic: {}", panic_text(e))),
                    Ok(x) => {
                        if accept && x != Ok(out.len()) {
                            self.fail("result", op, w, 0, "wrong length", format!("Ok({})", out.len()), format!("{x:?}"))
                        }
                    }
                }
            }
            _ => unreachable!(),
        }
        self.out = out;
        if let Some(t) = crate::guard::take() {
            self.fail("memory", op, w, 0, t, "intact heap block".into(), "damaged".into());
        }
        if accept {
            self.accepted += 1
        } else {
            self.rejected += 1
        }
        if unsafe { core::slice::from_raw_parts(s, w.len()) } != w {
            self.fail("memory", op, w, 0, "source modified", "unchanged".into(), "modified".into());
        }
    }

    pub fn some_place(&mut self) -> Place {
        match self.rng.below(4) {
            0 => Place::End,
            1 => Place::Start,
            _ => Place::Off(self.rng.below(4096) as usize),
        }
    }

    /// Usually against the page end, sometimes elsewhere.
    fn mostly_end(&mut self) -> Place {
        if self.rng.below(8) < 5 {
            Place::End
        } else {
            self.some_place()
        }
    }

    /// Run every operation of the group on word w. `deep`: 0 one call each, 1 a few, 2 all
    /// short destinations, 3 all placements.
    pub fn word(&mut self, m: &Machine, group: &[(&OpImpl, OpFacts)], w: &[u8], deep: u8) {
        if self.full() {
            return;
        }
        let accept = self.expect(m, w);
        if self.samples.len() < 6 && self.words % 977 == 1 {
            let s = format!("{} {} -> {}", group[0].0.name, clip(&w[..w.len().min(80)]), Self::tag(accept, &self.out[..self.out.len().min(80)]));
            self.samples.push(s);
        }
        let olen = self.out.len();
        for (op, f) in group {
            if w.len() % f.unit != 0 {
                continue;
            }
            if self.full() {
                return;
            }
            match self.per_op.get_mut(&op.name) {
                Some(n) => *n += 1,
                None => {
                    self.per_op.insert(op.name.clone(), 1);
                }
            }
            match &op.call {
                Call::Slice(_) => {
                    if f.form == "fixed" || f.form == "raw" {
                        // raw and fixed destinations are exactly as big as the result must be
                        let n = if f.form == "raw" {
                            if accept { olen } else { w.len() }
                        } else if f.m.starts_with("parse") {
                            16
                        } else {
                            if !accept {
                                continue; // fixed-size sources: other lengths do not type-check
                            }
                            olen
                        };
                        let (a, b) = if deep == 0 { (self.mostly_end(), self.mostly_end()) } else { (Place::End, Place::End) };
                        self.slice_call(op, f, w, accept, n, a, b);
                        if deep > 0 {
                            let (a, b) = (self.some_place(), self.some_place());
                            self.slice_call(op, f, w, accept, n, a, b);
                        }
                        if deep == 3 {
                            for o in 0..33 {
                                self.slice_call(op, f, w, accept, n, Place::Off(o), Place::Off(64 - o));
                            }
                            self.slice_call(op, f, w, accept, n, Place::Start, Place::Start);
                        }
                        continue;
                    }
                    let need = if f.pol == "exact" { olen } else { w.len() };
                    let base = if accept { need } else if f.pol == "exact" { w.len() * 2 } else { w.len() };
                    let up = |x: usize| x / f.unit * f.unit;
                    let (a, b) = if deep == 0 { (self.mostly_end(), self.mostly_end()) } else { (Place::End, Place::End) };
                    self.slice_call(op, f, w, accept, base, a, b);
                    if deep > 0 {
                        let (a, b) = (self.some_place(), self.some_place());
                        let more = base + up(match self.rng.below(12) {
                            0 => self.rng.below(2 * w.len() as u64 + 600),
                            1 => self.rng.below(5000),
                            _ => self.rng.below(90),
                        } as usize)
                        .min(self.dst_arena.cap() - base);
                        self.slice_call(op, f, w, accept, more, a, b);
                        if need > 0 {
                            let less = match self.rng.below(3) {
                                0 => need - f.unit,
                                1 => 0,
                                _ => up(self.rng.below(need as u64) as usize),
                            };
                            let a = self.some_place();
                            self.slice_call(op, f, w, accept, less, a, Place::End);
                        }
                    }
                    if deep == 2 {
                        let mut n = 0;
                        while n < need + 70 {
                            let p = if n % 2 == 0 { Place::Start } else { Place::Off(100) };
                            self.slice_call(op, f, w, accept, n, Place::End, p);
                            self.slice_call(op, f, w, accept, n, Place::Start, Place::End);
                            n += f.unit;
                        }
                    }
                    if deep == 3 {
                        for o in 0..33 {
                            self.slice_call(op, f, w, accept, base, Place::Off(o), Place::Off(64 - o));
                            self.slice_call(op, f, w, accept, base, Place::Off(o), Place::End);
                            self.slice_call(op, f, w, accept, base, Place::End, Place::Off(o));
                        }
                        self.slice_call(op, f, w, accept, base, Place::Start, Place::Start);
                        self.slice_call(op, f, w, accept, base, Place::Start, Place::End);
                        self.slice_call(op, f, w, accept, base, Place::End, Place::Start);
                    }
                }
                Call::InPlace(_) => {
                    let a = if deep == 0 { self.mostly_end() } else { Place::End };
                    self.inplace_call(op, f, w, accept, a);
                    if deep > 0 {
                        let a = self.some_place();
                        self.inplace_call(op, f, w, accept, a);
                    }
                    if deep == 3 {
                        for o in 0..33 {
                            self.inplace_call(op, f, w, accept, Place::Off(o));
                        }
                        self.inplace_call(op, f, w, accept, Place::Start);
                    }
                }
                _ => {
                    if f.m.starts_with("fmt") && !accept {
                        continue;
                    }
                    let a = if deep == 0 { self.mostly_end() } else { Place::End };
                    self.other_call(op, f, w, accept, a);
                    if deep > 0 {
                        let a = self.some_place();
                        self.other_call(op, f, w, accept, a);
                    }
                    if deep == 3 {
                        for o in 0..33 {
                            self.other_call(op, f, w, accept, Place::Off(o));
                        }
                        self.other_call(op, f, w, accept, Place::Start);
                    }
                }
            }
        }
    }
}
