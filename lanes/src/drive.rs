//! Runs the primitives in lockstep with the tables TLC derived from module Lanes.
use crate::ops::{self, F};
use std::collections::HashMap;
use std::fmt::Write;

pub struct OpSpec {
    pub name: String,
    pub kind: String,
    pub min: String,
    pub wasm: bool,
    pub neon: bool,
    pub dom: String,
    pub f: String,
    pub n: usize,
    pub args: Vec<usize>,
    pub p: Vec<usize>,
}
#[derive(Default)]
pub struct Spec {
    pub ops: Vec<OpSpec>,
    tabs: HashMap<String, Vec<u32>>,
    fins: HashMap<String, (String, Vec<String>)>,
}
impl Spec {
    pub fn parse(t: &str) -> Spec {
        let mut s = Spec::default();
        let nums = |x: &str| -> Vec<usize> { if x == "-" { vec![] } else { x.split(',').map(|y| y.parse().unwrap()).collect() } };
        for l in t.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            match w[0] {
                "op" => s.ops.push(OpSpec {
                    name: w[1].into(), kind: w[2].into(), min: w[3].into(), wasm: &w[4][..1] == "1", neon: &w[4][1..] == "1", dom: w[5].into(), f: w[6].into(),
                    n: w[7].parse().unwrap(), args: nums(w[8]), p: nums(w[9]),
                }),
                "tab" => {
                    s.tabs.insert(format!("{}.{}", w[1], w[2]), w[3..].iter().map(|x| x.parse().unwrap()).collect());
                }
                "fin" => {
                    s.fins.insert(w[1].into(), (w[2].into(), w[3..].iter().map(|x| x.to_string()).collect()));
                }
                x => panic!("record {x}"),
            }
        }
        s
    }
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// a byte, often one at which something changes
    pub fn edge(&mut self) -> u8 {
        let r = self.next();
        match r & 7 {
            0 => 0,
            1 => 0xff,
            2 => 0x7f,
            3 => 0x80,
            4 => 1,
            _ => (r >> 8) as u8,
        }
    }
}

/// what the specification says of a result
enum Want<'a> {
    Is(Vec<u8>),
    Gather(&'a OpSpec),
    Unsaid,
}

pub struct Run<'a> {
    spec: &'a Spec,
    scale: usize,
    rng: Rng,
    pub calls: u64,
    pub vectors: u64,
    pub events: String,
    pub nevents: u64,
    pub viol: Vec<String>,
    per: usize,
    /// few vectors, for an interpreter: `thin` times one in the kind's share, 0 for all of them
    few: bool,
    thin: usize,
    asked: usize,
    via: Via,
}

/// Where the results come from: the functions here, or a run elsewhere of the vectors collected here.
pub enum Via {
    Here,
    Collect(HashMap<String, (usize, Vec<u8>)>),
    Elsewhere(String, HashMap<String, Vec<u8>>, usize),
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

impl<'a> Run<'a> {
    fn want(&self, o: &'a OpSpec, a: &[u8]) -> Want<'a> {
        let tab = |f: &str| self.spec.tabs.get(&format!("{}.{}", if f == "packus" { "pair" } else { &o.kind }, f)).unwrap();
        let off = |k: usize| o.args[..k].iter().sum::<usize>();
        Want::Is(match o.kind.as_str() {
            "byte1" => {
                let t = tab(&o.f);
                a.iter().map(|x| t[*x as usize] as u8).collect()
            }
            "byte2" => {
                let t = tab(&o.f);
                (0..o.n).map(|i| t[a[i] as usize * 256 + a[o.n + i] as usize] as u8).collect()
            }
            "pair" => {
                let t = tab("packus");
                a.chunks(2).map(|c| t[c[0] as usize * 256 + c[1] as usize] as u8).collect()
            }
            "expand" => {
                let t = tab(&o.f);
                a.iter().flat_map(|x| [t[2 * *x as usize] as u8, t[2 * *x as usize + 1] as u8]).collect()
            }
            "contract" => {
                let t = tab("unhex2");
                let mut r = vec![1];
                let mut ok = true;
                for c in a.chunks(2) {
                    let v = t[c[0] as usize * 256 + c[1] as usize];
                    ok &= v != 256;
                    r.push(v as u8);
                }
                if ok {
                    r
                } else {
                    vec![0; o.n]
                }
            }
            "fold" => {
                let t = tab(&o.f);
                let mut s = 0;
                for x in a {
                    s = t[s * 256 + *x as usize] as usize;
                }
                vec![t[512 + s] as u8]
            }
            "reduce" => {
                let t = &self.spec.tabs[&format!("byte2.{}", o.f)];
                vec![a[1..].iter().fold(a[0], |s, x| t[s as usize * 256 + *x as usize] as u8)]
            }
            "reach" => (0..o.n).map(|i| if (a[o.n + i] as usize) < o.n { a[a[o.n + i] as usize] } else { 0 }).collect(),
            "ripple" => {
                let w = o.p[0];
                let (m, fin) = &self.spec.fins[&o.f];
                let tabs: Vec<[Option<&Vec<u32>>; 2]> =
                    (0..4).map(|s| [self.spec.tabs.get(&format!("ripple.{m}.{s}")), self.spec.tabs.get(&format!("ripple.{m}.last.{s}"))]).collect();
                let mut r = Vec::with_capacity(o.n);
                for k in (0..o.n).step_by(w) {
                    let (x, y) = (&a[k..k + w], &a[o.n + k..o.n + k + w]);
                    let mut s = 0;
                    let mut out = [0u8; 8];
                    for i in 0..w {
                        let v = tabs[s][(i + 1 == w) as usize].unwrap()[x[i] as usize * 256 + y[i] as usize] as usize;
                        s = v >> 8;
                        out[i] = v as u8;
                    }
                    for i in 0..w {
                        let l = i + 1 == w;
                        r.push(match fin[s].as_str() {
                            "out" => out[i],
                            "ones" => 255,
                            "zero" => 0,
                            "a" => x[i],
                            "b" => y[i],
                            "smax" => if l { 0x7f } else { 0xff },
                            "smin" => if l { 0x80 } else { 0 },
                            z => panic!("delivery {z}"),
                        });
                    }
                }
                r
            }
            "moves" if o.p[0] == 8 => o.p[1..].iter().map(|s| if *s == 0 { 0 } else { a[*s - 1] }).collect(),
            "moves" => {
                let mut r = vec![0u8; o.n];
                for (j, s) in o.p[1..].iter().enumerate() {
                    if *s > 0 && a[(*s - 1) / 8] >> ((*s - 1) % 8) & 1 == 1 {
                        r[j / 8] |= 1 << (j % 8);
                    }
                }
                r
            }
            "sel" => {
                let g = |k: usize, i: usize| a[off(o.p[k] - 1) + i];
                (0..o.n)
                    .map(|i| {
                        let (c, x, y) = (g(1, i), g(2, i), g(3, i));
                        let m = if o.p[0] == 1 { c } else { 0u8.wrapping_sub(c >> 7) };
                        x & m | y & !m
                    })
                    .collect()
            }
            "gather" => return Want::Gather(o),
            "mul" | "alsw" => return Want::Unsaid,
            k => panic!("kind {k}"),
        })
    }

    fn one(&mut self, o: &'a OpSpec, fs: &[(&'static str, F)], a: &[u8], rec: bool) {
        if self.few && !rec {
            let share = match o.kind.as_str() {
                "byte1" | "expand" => 13,
                "moves" | "sel" => 7,
                "ripple" | "mul" | "alsw" => 5,
                "contract" => 199,
                "fold" | "gather" | "reduce" | "reach" => 101,
                _ => 61,
            };
            self.asked += 1;
            if self.thin > 0 && self.asked % (share / self.thin).max(1) != 0 {
                return;
            }
        }
        self.vectors += 1;
        let elsewhere: String;
        let mut there: Vec<(&str, Option<F>)> = vec![];
        match &mut self.via {
            Via::Here => there.extend(fs.iter().map(|(i, f)| (*i, Some(*f)))),
            Via::Collect(m) => {
                let e = m.entry(o.name.clone()).or_default();
                e.0 += 1;
                e.1.extend_from_slice(a);
                return;
            }
            Via::Elsewhere(isa, _, _) => {
                elsewhere = isa.clone();
                there.push((&elsewhere, None));
            }
        }
        let want = self.want(o, a);
        let mut first: Option<Vec<u8>> = None;
        for (isa, f) in &there {
            let mut out = vec![0xA5u8; o.n + 8];
            self.calls += 1;
            set_current(&o.name, isa, a);
            match (f, &mut self.via) {
                (Some(f), _) => unsafe { f(a, &mut out[..o.n]) },
                (None, Via::Elsewhere(_, m, k)) => {
                    let r = m.get(&o.name).unwrap_or_else(|| panic!("driver: no results of {}", o.name));
                    out[..o.n].copy_from_slice(r.get(*k..*k + o.n).unwrap_or_else(|| panic!("driver: too few results of {}", o.name)));
                    *k += o.n;
                }
                _ => unreachable!(),
            }
            out.truncate(o.n);
            let bad = match &want {
                Want::Is(w) => if &out != w { Some(hex(w)) } else { None },
                Want::Gather(o) => {
                    let n = o.args[0];
                    let ok = (0..o.n).all(|i| {
                        let x = a[n + i];
                        let t = a[i / 16 * 16 + (x & 15) as usize];
                        if x >= 128 { out[i] == 0 } else { out[i] == t || (o.p[0] == 1 && x >= 16 && out[i] == 0) }
                    });
                    if ok { None } else { Some("the indexed bytes, 0 where the index has its top bit".into()) }
                }
                Want::Unsaid => None,
            };
            let bad = bad.or_else(|| match &first {
                Some(w) if w != &out => Some(format!("as on the lower instruction set, {}", hex(w))),
                _ => None,
            });
            if let Some(w) = bad {
                if self.viol.len() < 20 {
                    self.viol.push(format!(
                        "{{\"kind\":\"lane\",\"op\":\"{}\",\"src\":\"{}\",\"dlen\":0,\"isa\":\"{isa}\",\"what\":\"wrong lanes on {isa}\",\"expected\":\"{w}\",\"got\":\"{}\"}}",
                        o.name, hex(a), hex(&out)
                    ));
                }
            }
            if first.is_none() {
                first = Some(out);
            }
        }
        if rec {
            let mut k = 0;
            let args: Vec<String> = o
                .args
                .iter()
                .map(|n| {
                    k += n;
                    format!("{:?}", &a[k - n..k])
                })
                .collect();
            let _ = writeln!(self.events, "{{\"op\":\"{}\",\"args\":[{}],\"out\":{:?}}}", o.name, args.join(","), first.unwrap());
            self.nevents += 1;
        }
    }

    fn op(&mut self, o: &'a OpSpec, fs: &[(&'static str, F)]) {
        let len: usize = o.args.iter().sum();
        let mut a = vec![0u8; len];
        let quick = self.scale <= 1;
        // sampled calls, recorded for TLC; for multiplications they are the whole story
        let per = match o.kind.as_str() {
            "mul" => self.per * 60,
            "alsw" => self.per * 100,
            "moves" if o.name.contains("blend") || o.name.contains("permute") => 1,
            _ => self.per,
        };
        for k in 0..per {
            for x in a.iter_mut() {
                *x = if k % 3 == 0 { self.rng.next() as u8 } else { self.rng.edge() };
                if o.dom == "mask" {
                    *x = 0u8.wrapping_sub(*x & 1);
                }
            }
            if o.kind == "contract" && k % 2 == 0 {
                a.iter_mut().for_each(|x| *x = b"0123456789abcdefABCDEF"[*x as usize % 22]);
            }
            if o.kind == "fold" && k > 0 {
                let c: Vec<u8> = self.stay(o);
                let i = k % len;
                let b = a[i];
                for x in a.iter_mut() {
                    *x = c[*x as usize % c.len()];
                }
                a[i] = b;
            }
            if o.kind == "mul" && k % 5 == 4 {
                // extreme lanes
                let e = [[0x00, 0x80], [0xff, 0x7f], [0xff, 0xff], [0x00, 0x00], [0x01, 0x80], [0xff, 0x80]];
                for c in a.chunks_mut(2) {
                    c.copy_from_slice(&e[self.rng.below(6)]);
                }
            }
            self.one(o, fs, &a.clone(), true);
        }
        match o.kind.as_str() {
            "byte1" | "expand" => {
                for k in 0..256usize {
                    for j in [37usize, 1, 101] {
                        for (i, x) in a.iter_mut().enumerate() {
                            *x = (k + i * j) as u8;
                        }
                        self.one(o, fs, &a.clone(), false);
                    }
                }
            }
            "byte2" => {
                // every pair of bytes in every lane (few: in some lane)
                for k in 0..if self.few { 65536 / o.n } else { 65536usize } {
                    for i in 0..o.n {
                        let p = if self.few { k * o.n + i } else { k + i * 2053 };
                        a[i] = (p >> 8) as u8;
                        a[o.n + i] = p as u8;
                    }
                    self.one(o, fs, &a.clone(), false);
                }
            }
            "pair" => {
                let n = len / 2;
                for k in 0..if self.few { 65536 / n } else { 65536usize } {
                    for (i, c) in a.chunks_mut(2).enumerate() {
                        let p = if self.few { k * n + i } else { k + i * 2053 };
                        c[0] = (p >> 8) as u8;
                        c[1] = p as u8;
                    }
                    self.one(o, fs, &a.clone(), false);
                }
            }
            "contract" => {
                const D: &[u8] = b"0123456789abcdefABCDEF";
                let lanes = len / 2;
                for pos in 0..lanes {
                    for k in 0..65536usize {
                        if self.few && k % (4 * lanes) != 4 * pos && (k.wrapping_mul(40503) >> 7) % lanes != pos {
                            continue;
                        }
                        if quick && (k + pos) % 3 != 0 && !(D.contains(&(k as u8)) || D.contains(&((k >> 8) as u8))) {
                            continue;
                        }
                        let r = self.rng.next();
                        for (i, x) in a.iter_mut().enumerate() {
                            *x = D[((r >> (i % 13)) as usize + i * 7) % 22];
                        }
                        a[2 * pos] = (k >> 8) as u8;
                        a[2 * pos + 1] = k as u8;
                        self.one(o, fs, &a.clone(), false);
                    }
                }
            }
            "fold" => {
                let stay = self.stay(o);
                for pos in 0..len {
                    for b in 0..256usize {
                        if o.dom == "mask" && b != 0 && b != 255 {
                            continue;
                        }
                        for _ in 0..if self.few { 1 } else { 4 } {
                            for x in a.iter_mut() {
                                *x = stay[self.rng.below(stay.len())];
                            }
                            a[pos] = b as u8;
                            self.one(o, fs, &a.clone(), false);
                        }
                    }
                }
                // a byte just outside the class beside every neighbour
                for _ in 0..if self.few { 300 } else if quick { 4000 } else { 400_000 } {
                    for x in a.iter_mut() {
                        *x = stay[self.rng.below(stay.len())];
                    }
                    for _ in 0..self.rng.below(3) {
                        let i = self.rng.below(len);
                        a[i] = if o.dom == "mask" { 0u8.wrapping_sub(self.rng.next() as u8 & 1) } else { self.rng.next() as u8 };
                    }
                    self.one(o, fs, &a.clone(), false);
                }
            }
            "moves" | "sel" => {
                for i in 0..8 * len {
                    for inv in [0u8, 0xff] {
                        a.iter_mut().for_each(|x| *x = inv);
                        a[i / 8] ^= 1 << (i % 8);
                        self.one(o, fs, &a.clone(), false);
                    }
                }
                for _ in 0..if self.few { 4 } else if quick { 100 } else { 5000 } {
                    a.iter_mut().for_each(|x| *x = self.rng.next() as u8);
                    self.one(o, fs, &a.clone(), false);
                }
            }
            "reduce" => {
                // every byte in every lane, the others close to it, or anything
                for pos in 0..len {
                    for b in 0..256usize {
                        let d = self.rng.next();
                        for x in a.iter_mut() {
                            *x = match d & 3 {
                                0 => b as u8,
                                1 => (b as u8).saturating_sub((self.rng.next() & 3) as u8),
                                2 => (b as u8).saturating_add((self.rng.next() & 3) as u8),
                                _ => self.rng.next() as u8,
                            };
                        }
                        a[pos] = b as u8;
                        self.one(o, fs, &a.clone(), false);
                    }
                }
            }
            "gather" | "reach" => {
                let n = o.args[0];
                for pos in 0..o.args[1] {
                    for b in 0..256usize {
                        for i in 0..len {
                            a[i] = self.rng.next() as u8;
                        }
                        a[n + pos] = b as u8;
                        self.one(o, fs, &a.clone(), false);
                    }
                }
            }
            "ripple" | "mul" | "alsw" => {
                let w = *o.p.first().unwrap_or(&1);
                for _ in 0..match self.scale { 0 => 300, 1 => 30_000, _ => 1_500_000 } {
                    a.iter_mut().for_each(|x| *x = self.rng.edge());
                    if o.kind == "ripple" {
                        // close pairs: equal limbs, one apart, sign flipped
                        for k in (0..o.n).step_by(w) {
                            let r = self.rng.next();
                            if r & 1 == 0 {
                                for i in 0..w {
                                    if r >> (8 + i) & 3 != 0 {
                                        a[o.n + k + i] = a[k + i];
                                    }
                                }
                                let i = k + (r >> 32) as usize % w;
                                a[o.n + i] = a[i].wrapping_add([0u8, 1, 255, 128][(r >> 40) as usize & 3]);
                            }
                        }
                    }
                    self.one(o, fs, &a.clone(), false);
                }
            }
            k => panic!("kind {k}"),
        }
    }

    /// bytes that leave a fold undecided
    fn stay(&self, o: &OpSpec) -> Vec<u8> {
        let t = &self.spec.tabs[&format!("fold.{}", o.f)];
        (0..256usize).filter(|b| t[*b] == 0 && (o.dom != "mask" || *b == 0 || *b == 255)).map(|b| b as u8).collect()
    }
}

static mut CURRENT: Vec<u8> = Vec::new();
fn set_current(op: &str, isa: &str, a: &[u8]) {
    unsafe {
        let c = &mut *core::ptr::addr_of_mut!(CURRENT);
        c.clear();
        c.extend_from_slice(op.as_bytes());
        c.push(b' ');
        c.extend_from_slice(isa.as_bytes());
        c.push(b' ');
        for x in a {
            c.push(b"0123456789abcdef"[(x >> 4) as usize]);
            c.push(b"0123456789abcdef"[(x & 15) as usize]);
        }
    }
}
#[allow(dead_code)]
pub fn current() -> &'static [u8] {
    unsafe { &*core::ptr::addr_of!(CURRENT) }
}

fn rank(l: &str) -> usize {
    match l {
        "sse2" | "wasm128" | "neon" => 0,
        "ssse3" => 1,
        "sse41" => 2,
        "avx2" => 3,
        _ => 9,
    }
}

/// the functions of an operation this machine may run and the specification says are offered
fn offered(o: &OpSpec, all: &'static [(&'static str, F)], have: &dyn Fn(&str) -> bool) -> Vec<(&'static str, F)> {
    all.iter()
        .filter(|(isa, _)| {
            have(isa)
                && if *isa == "wasm128" { o.wasm } else if *isa == "neon" { o.neon } else { o.min == "sse2only" && *isa == "sse2" || !matches!(o.min.as_str(), "sse2only" | "none" | "neon") && rank(&o.min) <= rank(isa) }
        })
        .cloned()
        .collect()
}

pub struct Plan<'p> {
    pub scale: usize,
    pub seed: u64,
    pub per: usize,
    pub part: usize,
    pub parts: usize,
    pub few: bool,
    pub thin: usize,
    pub skip: &'p [String],
}

/// returns (json summary, events, collected vectors)
pub fn run(text: &str, p: &Plan, via: Via, have: &dyn Fn(&str) -> bool) -> (String, String, Vec<(String, usize, Vec<u8>)>) {
    let spec = Spec::parse(text);
    let reg: HashMap<&str, &'static [(&'static str, F)]> = ops::registry().iter().map(|o| (o.name, o.f)).collect();
    let mut r = Run { spec: &spec, scale: p.scale, rng: Rng(p.seed), calls: 0, vectors: 0, events: String::new(), nevents: 0, viol: vec![], per: p.per, few: p.few, thin: p.thin, asked: 0, via };
    let (mut n, mut pairs, mut absent) = (0, 0, vec![]);
    for (i, o) in spec.ops.iter().enumerate() {
        if i % p.parts != p.part {
            continue;
        }
        // a run elsewhere is one on NEON
        if !matches!(r.via, Via::Here) {
            if o.neon && (o.min == "neon" || reg.contains_key(o.name.as_str())) {
                n += 1;
                pairs += 1;
                if let Via::Elsewhere(_, _, k) = &mut r.via {
                    *k = 0;
                }
                r.op(o, &[]);
            }
            continue;
        }
        match reg.get(o.name.as_str()) {
            Some(f) => {
                let fs = offered(o, f, have);
                let fs: Vec<_> = fs.into_iter().filter(|(isa, _)| !p.skip.contains(&format!("{} {isa}", o.name))).collect();
                if !fs.is_empty() {
                    n += 1;
                    pairs += fs.len();
                    r.op(o, &fs);
                }
            }
            None if o.min == "neon" => {}
            None => absent.push(o.name.clone()),
        }
    }
    if p.part == 0 {
        for name in reg.keys() {
            assert!(spec.ops.iter().any(|o| o.name == *name), "driver: {name} is not in the specification");
        }
    }
    (
        format!(
            "{{\"calls\":{},\"vectors\":{},\"ops\":{n},\"implementations\":{pairs},\"events\":{},\"absent\":{},\"violations\":[{}]}}",
            r.calls, r.vectors, r.nevents, absent.len(), r.viol.join(",")
        ),
        r.events,
        match r.via {
            Via::Collect(mut m) => spec.ops.iter().filter_map(|o| m.remove(&o.name).map(|(k, v)| (format!("{} {} {}", o.name, v.len() / k, o.n), k, v))).collect(),
            _ => vec![],
        },
    )
}
