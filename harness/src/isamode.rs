//! Which instruction sets does the library announce and execute under a CPU that announces
//! `mask`?  Records one event per observation for spec/Isa.tla.

use crate::isa_mask::{AVX1, MASK, NAMES, ODD, QUERIES};
use crate::ops::{self, Call};
use crate::rng::Rng;
use crate::tables::Spec;
use crate::{arg, jstr};
use std::io::Write;
use std::sync::atomic::Ordering::SeqCst;
use vsimd::isa::{self, InstructionSet};
use vsimd::native::Native;

// ---- single stepping ------------------------------------------------------------------------

pub const CLASSES: [&str; 12] =
    ["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "lzcnt", "bmi", "vex", "evex", "aes", "movbe", "sha"];

static mut SEEN: *mut u8 = std::ptr::null_mut();
static mut LO: usize = 0;
static mut HI: usize = 0;
static mut FOUND: u32 = 0;
static mut WHERE: [usize; 12] = [0; 12];
static mut STEPS: u64 = 0;

extern "C" {
    static __executable_start: u8;
    static etext: u8;
    fn sigaction(sig: i32, act: *const Act, old: *mut core::ffi::c_void) -> i32;
}
#[repr(C)]
struct Act {
    h: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

/// Instruction-set class of the instruction at `p` (index into CLASSES).
unsafe fn classify(mut p: *const u8) -> Option<usize> {
    let (mut p66, mut f2, mut f3) = (false, false, false);
    for _ in 0..14 {
        match *p {
            0x66 => p66 = true,
            0xf2 => f2 = true,
            0xf3 => f3 = true,
            0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 | 0xf0 => {}
            _ => break,
        }
        p = p.add(1);
    }
    if *p & 0xf0 == 0x40 {
        p = p.add(1);
    }
    let i = |n: &str| CLASSES.iter().position(|c| *c == n);
    match *p {
        0xc5 => i("vex"),
        0xc4 => {
            let map = *p.add(1) & 0x1f;
            let o = *p.add(3);
            if (map == 2 && (0xf2..=0xf7).contains(&o)) || (map == 3 && o == 0xf0) {
                i("bmi")
            } else {
                i("vex")
            }
        }
        0x62 => i("evex"),
        0x0f => match *p.add(1) {
            0x38 => match *p.add(2) {
                0x00..=0x0b | 0x1c..=0x1e => i("ssse3"),
                0x10 | 0x14 | 0x15 | 0x17 | 0x20..=0x25 | 0x28..=0x2b | 0x30..=0x35 | 0x38..=0x41 => i("sse4.1"),
                0x37 => i("sse4.2"),
                0xf0 | 0xf1 => {
                    if f2 {
                        i("sse4.2")
                    } else {
                        i("movbe")
                    }
                }
                0xdb..=0xdf => i("aes"),
                0xc8..=0xcd => i("sha"),
                _ => None,
            },
            0x3a => match *p.add(2) {
                0x0f => i("ssse3"),
                0x08..=0x0e | 0x14..=0x17 | 0x20..=0x22 | 0x40..=0x42 => i("sse4.1"),
                0x60..=0x63 => i("sse4.2"),
                0x44 | 0xdf => i("aes"),
                0xcc => i("sha"),
                _ => None,
            },
            0xb8 if f3 => i("popcnt"),
            0xbd if f3 => i("lzcnt"),
            0xf0 if f2 => i("sse3"),
            0x12 if f2 || f3 => i("sse3"),
            0x16 if f3 => i("sse3"),
            0x7c | 0x7d | 0xd0 if p66 || f2 => i("sse3"),
            _ => None,
        },
        _ => None,
    }
}

extern "C" fn on_trap(_sig: i32, _info: *mut core::ffi::c_void, uc: *mut u8) {
    unsafe {
        let rip = *uc.add(40 + 16 * 8).cast::<usize>();
        STEPS += 1;
        if rip >= LO && rip < HI {
            let s = SEEN.add(rip - LO);
            if *s == 0 {
                *s = match classify(rip as *const u8) {
                    Some(c) => c as u8 + 2,
                    None => 1,
                };
            }
            if *s > 1 {
                let c = (*s - 2) as usize;
                FOUND |= 1 << c;
                WHERE[c] = rip - LO;
            }
        }
    }
}

fn init_trace() {
    unsafe {
        LO = core::ptr::addr_of!(__executable_start) as usize;
        HI = core::ptr::addr_of!(etext) as usize;
        let v = Box::leak(vec![0u8; HI - LO].into_boxed_slice());
        SEEN = v.as_mut_ptr();
        let act = Act { h: on_trap as *const () as usize, mask: [0; 16], flags: 0x0400_0000 | 4 | 0x0800_0000, restorer: 0 };
        // SA_SIGINFO | SA_ONSTACK; libc's sigaction supplies the restorer
        assert!(sigaction(5, &act, core::ptr::null_mut()) == 0);
    }
}

/// Run `f` one instruction at a time and return the instruction classes it executed.
pub fn traced<T>(f: impl FnOnce() -> T) -> (T, u32) {
    unsafe {
        FOUND = 0;
        core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        let r = f();
        core::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        (r, FOUND)
    }
}

// ---- events ---------------------------------------------------------------------------------

pub struct Sink {
    f: std::io::BufWriter<std::fs::File>,
    pub n: u64,
}
impl Sink {
    pub fn new(p: &str) -> Sink {
        Sink { f: std::io::BufWriter::new(std::fs::File::create(p).unwrap()), n: 0 }
    }
    pub fn put(&mut self, s: String) {
        writeln!(self.f, "{s}").unwrap();
        self.n += 1;
    }
}
fn names(m: u32) -> String {
    let v: Vec<String> = NAMES.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, n)| jstr(n)).collect();
    format!("[{}]", v.join(","))
}
fn classes(m: u32) -> String {
    let v: Vec<String> = CLASSES.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, n)| jstr(n)).collect();
    format!("[{}]", v.join(","))
}

/// Announcements under every mask, native execution under every mask.
fn announce(out: &mut Sink) -> bool {
    fn q<S: InstructionSet>() -> (bool, bool, bool) {
        let a = QUERIES.load(SeqCst);
        let e = S::is_enabled();
        let hooked = QUERIES.load(SeqCst) != a;
        (e, isa::detect::<S>().is_some(), hooked)
    }
    let mut hooked_all = true;
    // 16 masks: every subset; and the mask "everything" first, against the real CPU
    let masks: Vec<u32> = [u32::MAX].into_iter().chain(0..16).chain([1 | ODD, 7 | AVX1, 7 | ODD | AVX1]).collect();
    for m in masks {
        MASK.store(m, SeqCst);
        let ann = if m == u32::MAX { real_cpu() } else { m & real_cpu() };
        for (name, (e, d, hooked)) in [
            ("fallback", q::<isa::Fallback>()),
            ("sse2", q::<isa::SSE2>()),
            ("ssse3", q::<isa::SSSE3>()),
            ("sse4.1", q::<isa::SSE41>()),
            ("avx2", q::<isa::AVX2>()),
            ("neon", q::<isa::NEON>()),
            ("simd128", q::<isa::WASM128>()),
        ] {
            let x86 = NAMES.contains(&name);
            if x86 && !hooked {
                hooked_all = false;
                if m != u32::MAX {
                    continue; // the feature query did not go through the hook: the mask says nothing
                }
            }
            for v in [e, d] {
                out.put(format!("{{\"k\":\"announce\",\"cpu\":{},\"isa\":\"{name}\",\"value\":{v}}}", names(ann)));
            }
        }
    }
    MASK.store(u32::MAX, SeqCst);
    hooked_all
}

pub fn real_cpu() -> u32 {
    let t = std::fs::read_to_string("/proc/cpuinfo").unwrap_or_default();
    let l = t.lines().find(|l| l.starts_with("flags")).unwrap_or("").to_string();
    let f: Vec<&str> = l.split_whitespace().collect();
    let mut m = 0;
    for (i, n) in ["sse2", "ssse3", "sse4_1", "avx2"].iter().enumerate() {
        if f.contains(n) {
            m |= 1 << i;
        }
    }
    m
}

#[inline(never)]
fn native_work(v: &[u32]) -> u64 {
    let n = Native::detect();
    n.exec(|| v.iter().map(|x| (x ^ 0x55) as u64).sum::<u64>())
}

fn native(out: &mut Sink, mask: u32, step: bool) {
    let v: Vec<u32> = (0..300u32).map(|x| x.wrapping_mul(2654435761)).collect();
    let want: u64 = v.iter().map(|x| (x ^ 0x55) as u64).sum();
    // the closure may be moved, borrow mutably, and return anything
    let mut runs = 0u32;
    let big = vec![7u8; 40];
    let n = Native::detect();
    let r: (String, [u64; 9], Vec<u8>) = n.exec(|| {
        runs += 1;
        (format!("{}", v.len()), [3; 9], big)
    });
    let good = r.0 == "300" && r.1 == [3; 9] && r.2 == vec![7u8; 40];
    let mut nested = 0u32;
    let x = n.exec(|| {
        nested += 1;
        Native::detect().exec(|| {
            nested += 1;
            nested
        })
    });
    let (sum, found) = if step { traced(|| native_work(&v)) } else { (native_work(&v), 0) };
    let unwound = std::panic::catch_unwind(|| n.exec(|| -> u32 { panic!("x") })).is_err();
    out.put(format!(
        "{{\"k\":\"native\",\"cpu\":{},\"runs\":{runs},\"nested\":{nested},\"returned\":{},\"classes\":{}}}",
        names(mask),
        good && x == 2 && sum == want && unwound,
        classes(found)
    ));
}

/// Execute every operation one instruction at a time.
pub fn run(spec: &Spec, level: &str) -> String {
    let mut out = Sink::new(&arg("--trace").expect("--trace"));
    let lv_mask = MASK.load(SeqCst);
    vsimd::isa::verif::install(crate::isa_mask::allows);
    let hooked = announce(&mut out);
    for m in (0..16).chain([1 | ODD, 7 | AVX1, 7 | ODD | AVX1]) {
        MASK.store(m, SeqCst);
        native(&mut out, m, false);
    }
    MASK.store(lv_mask, SeqCst);
    let mut insn = 0u64;
    let mut calls = 0u64;
    let mut steps_total = 0u64;
    if hooked && real_cpu() == 15 && std::env::args().any(|a| a == "--step") {
        let mask = if level == "native" { real_cpu() } else { lv_mask };
        init_trace();
        native(&mut out, mask, true);
        let per = crate::num("--per", 6);
        let mut rng = Rng::new(crate::num("--seed", 1) as u64);
        for op in ops::registry() {
            let Some(f) = spec.ops.get(&op.name) else { continue };
            let Some(m) = spec.machines.get(&f.m) else { continue };
            let mut found = 0u32;
            let mut n = 0;
            let fmt = f.m.starts_with("fmt");
            for k in 0..per {
                let len = if fmt { 16 } else { [96, 36, 45, 200, 16, 130, 256, 32, 38, 64, 1, 0, 48].get(k).copied().unwrap_or_else(|| rng.below(300) as usize) };
                let len = len / f.unit * f.unit;
                let Some(mut w) = m.word(len, 0, &mut rng).or_else(|| m.word(len / 8 * 8, 0, &mut rng)) else { continue };
                if k % 6 == 5 && !w.is_empty() && !fmt {
                    let i = rng.below(w.len() as u64) as usize;
                    w[i] = rng.next() as u8;
                }
                let w: Vec<u8> = w[..w.len() / f.unit * f.unit].to_vec();
                let dlen = if f.form == "fixed" { if f.m.starts_with("parse") { 16 } else { ops::fixed_len(&op.name) } } else { w.len() * 2 + 64 };
                let call = ops::prepare(&op, &w, dlen);
                let (_, fd) = traced(call);
                found |= fd;
                calls += 1;
                n += 1;
            }
            let _ = matches!(op.call, Call::Test(_));
            unsafe {
                let w: Vec<String> = (0..12).filter(|i| found >> i & 1 == 1).map(|i| format!("{}", jstr(&format!("{}@{:x}", CLASSES[i], WHERE[i])))).collect();
                out.put(format!("{{\"k\":\"run\",\"cpu\":{},\"op\":{},\"n\":{n},\"classes\":{},\"at\":[{}]}}", names(mask), jstr(&op.name), classes(found), w.join(",")));
                insn += 1;
                steps_total = STEPS;
            }
        }
    }
    format!(
        "{{\"calls\":{calls},\"words\":{calls},\"distinct\":{insn},\"events\":{},\"hooked\":{hooked},\"steps\":{steps_total},\"violations\":[],\"samples\":[]}}",
        out.n
    )
}
