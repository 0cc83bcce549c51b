//! Interpreter and word generator for the machines written by spec/Tables.tla.
//! Nothing in here knows what the machines mean.

use crate::rng::Rng;
use std::collections::HashMap;

pub struct Table {
    pub n: usize,
    next: Vec<u16>,  // state * 256 + byte -> successor, 0xffff: reject
    outs: Vec<u32>,  // len << 24 | up to 3 bytes
    fin: Vec<Option<Vec<u8>>>,
    alive: Vec<u8>,  // liveness class, see `prepare`
    can: Vec<Vec<bool>>, // can[k][s]: acceptance reachable in exactly k bytes
    good: Vec<Vec<u8>>, // bytes not rejected
}

pub enum Machine {
    Table(Table),
    Perm(Vec<usize>),
}

const HORIZON: usize = 64;

impl Table {
    fn prepare(&mut self) {
        let n = self.n;
        let mut can = vec![(0..n).map(|s| self.fin[s].is_some()).collect::<Vec<_>>()];
        // successor sets
        let succ: Vec<Vec<u16>> = (0..n)
            .map(|s| {
                let mut v: Vec<u16> = self.next[s * 256..s * 256 + 256].iter().copied().filter(|&x| x != 0xffff).collect();
                v.sort();
                v.dedup();
                v
            })
            .collect();
        for k in 1..=HORIZON {
            let prev = &can[k - 1];
            can.push((0..n).map(|s| succ[s].iter().any(|&t| prev[t as usize])).collect());
        }
        self.alive = (0..n)
            .map(|s| ((HORIZON - 16)..=HORIZON).any(|k| can[k][s]) as u8)
            .collect();
        self.can = can;
        self.good = (0..n)
            .map(|s| (0..256usize).filter(|&b| self.next[s * 256 + b] != 0xffff).map(|b| b as u8).collect())
            .collect();
    }

    #[inline(always)]
    fn step(&self, s: usize, b: u8, out: &mut Vec<u8>) -> Option<usize> {
        let i = s * 256 + b as usize;
        let t = self.next[i];
        if t == 0xffff {
            return None;
        }
        let o = self.outs[i];
        let l = o >> 24;
        if l > 0 {
            out.push(o as u8);
            if l > 1 {
                out.push((o >> 8) as u8);
                if l > 2 {
                    out.push((o >> 16) as u8);
                }
            }
        }
        Some(t as usize)
    }

    pub fn run(&self, w: &[u8], out: &mut Vec<u8>) -> bool {
        out.clear();
        let mut s = 0;
        for &b in w {
            match self.step(s, b, out) {
                Some(t) => s = t,
                None => {
                    out.clear();
                    return false;
                }
            }
        }
        match &self.fin[s] {
            Some(f) => {
                out.extend_from_slice(f);
                true
            }
            None => {
                out.clear();
                false
            }
        }
    }

    /// An accepted word of exactly n bytes, if the random walk finds one.
    /// selfloop: percentage of silent self loops wanted (0: none unless forced).
    pub fn word(&self, n: usize, selfloop: u32, rng: &mut Rng) -> Option<Vec<u8>> {
        let tries = if n <= HORIZON { 4 } else { 6 };
        for _ in 0..tries {
            if let Some(w) = self.try_word(n, selfloop, rng) {
                return Some(w);
            }
        }
        None
    }

    fn try_word(&self, n: usize, selfloop: u32, rng: &mut Rng) -> Option<Vec<u8>> {
        let mut w = Vec::with_capacity(n);
        let mut s = 0usize;
        // most words stay away from states with few ways on (after padding, say)
        let wild = rng.below(8) == 0;
        for i in 0..n {
            let rem = n - i - 1; // bytes left after this one
            let ok = |t: u16| {
                let t = t as usize;
                if rem <= HORIZON {
                    self.can[rem][t]
                } else {
                    self.alive[t] == 1
                }
            };
            let row = &self.next[s * 256..s * 256 + 256];
            let good = &self.good[s];
            if good.is_empty() {
                return None;
            }
            let silent = |b: u8| row[b as usize] as usize == s && self.outs[s * 256 + b as usize] == 0 && self.n > 1;
            let want_loop = rng.below(100) < selfloop as u64;
            let rich = |t: u16| rem <= 8 || wild || self.good[t as usize].len() > 16;
            let mut pick = None;
            // rejection sampling first, exhaustive fallback
            for t in 0..24 {
                let b = good[rng.below(good.len() as u64) as usize];
                if ok(row[b as usize]) && (silent(b) == want_loop || t >= 12) && (rich(row[b as usize]) || t >= 20) {
                    pick = Some(b);
                    break;
                }
            }
            if pick.is_none() {
                let c: Vec<u8> = good.iter().copied().filter(|&b| ok(row[b as usize])).collect();
                if c.is_empty() {
                    return None;
                }
                pick = Some(c[rng.below(c.len() as u64) as usize]);
            }
            let b = pick.unwrap();
            w.push(b);
            s = row[b as usize] as usize;
        }
        if self.fin[s].is_some() {
            Some(w)
        } else {
            None
        }
    }

    /// Shortest word leading to each state.
    pub fn access(&self) -> Vec<Option<Vec<u8>>> {
        let mut v: Vec<Option<Vec<u8>>> = vec![None; self.n];
        v[0] = Some(vec![]);
        let mut q = std::collections::VecDeque::from([0usize]);
        while let Some(s) = q.pop_front() {
            for b in 0..256usize {
                let t = self.next[s * 256 + b];
                if t != 0xffff && v[t as usize].is_none() {
                    let mut w = v[s].clone().unwrap();
                    w.push(b as u8);
                    v[t as usize] = Some(w);
                    q.push_back(t as usize);
                }
            }
        }
        v
    }
    /// A word of at least n bytes (if the walk finds one) that leads from the start back to it.
    pub fn home(&self, n: usize, rng: &mut Rng) -> Option<Vec<u8>> {
        let mut w = vec![];
        let mut s = 0usize;
        if n == 0 {
            return Some(w);
        }
        for _ in 0..n + 64 {
            let g = &self.good[s];
            if g.is_empty() {
                return None;
            }
            let mut b = g[rng.below(g.len() as u64) as usize];
            // stay out of states with few ways on
            for _ in 0..16 {
                if self.good[self.next[s * 256 + b as usize] as usize].len() > 2 {
                    break;
                }
                b = g[rng.below(g.len() as u64) as usize];
            }
            w.push(b);
            s = self.next[s * 256 + b as usize] as usize;
            if s == 0 && w.len() >= n {
                return Some(w);
            }
        }
        None
    }
    /// For each state, the bytes at the ends of runs of bytes with the same successor.
    pub fn edges(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
        (0..self.n)
            .map(|s| {
                let row = &self.next[s * 256..s * 256 + 256];
                let (mut good, mut bad) = (vec![], vec![]);
                for b in 0..256usize {
                    if b == 0 || b == 255 || row[b - 1] != row[b] || row[b + 1] != row[b] {
                        if row[b] == 0xffff {
                            bad.push(b as u8)
                        } else {
                            good.push(b as u8)
                        }
                    }
                }
                (good, bad)
            })
            .collect()
    }
    pub fn edge_word(&self, ed: &[(Vec<u8>, Vec<u8>)], n: usize, bad: Option<usize>, rng: &mut Rng) -> Option<Vec<u8>> {
        let mut w = Vec::with_capacity(n);
        let mut s = Some(0usize);
        for i in 0..n {
            let rem = n - i - 1;
            let Some(c) = s else {
                // rejected already: go on from the start
                let g = &self.good[0];
                w.push(g[rng.below(g.len() as u64) as usize]);
                continue;
            };
            let row = &self.next[c * 256..c * 256 + 256];
            if bad == Some(i) && !ed[c].1.is_empty() {
                w.push(ed[c].1[rng.below(ed[c].1.len() as u64) as usize]);
                s = None;
                continue;
            }
            let ok = |b: u8| {
                let t = row[b as usize] as usize;
                if rem <= HORIZON { self.can[rem][t] } else { self.alive[t] == 1 }
            };
            let pool = if rng.below(8) == 0 || ed[c].0.is_empty() { &self.good[c] } else { &ed[c].0 };
            if pool.is_empty() {
                return None;
            }
            let mut b = pool[rng.below(pool.len() as u64) as usize];
            for _ in 0..12 {
                if ok(b) {
                    break;
                }
                b = pool[rng.below(pool.len() as u64) as usize];
            }
            if !ok(b) {
                match self.good[c].iter().find(|&&b| ok(b)) {
                    Some(x) => b = *x,
                    None => return None,
                }
            }
            w.push(b);
            s = Some(row[b as usize] as usize);
        }
        Some(w)
    }
    pub fn next_state(&self, s: usize, b: u8) -> Option<usize> {
        let t = self.next[s * 256 + b as usize];
        (t != 0xffff).then_some(t as usize)
    }
    /// Continue w (now in state s) by about n bytes to an accepting state where possible.
    pub fn extend(&self, w: &mut Vec<u8>, mut s: usize, n: usize, rng: &mut Rng) {
        let k = (n.min(HORIZON)..=HORIZON).chain(0..n.min(HORIZON)).find(|&k| self.can[k][s]);
        let Some(k) = k else { return };
        for rem in (0..k).rev() {
            let row = &self.next[s * 256..s * 256 + 256];
            let g = &self.good[s];
            let ok = |b: u8| self.can[rem][row[b as usize] as usize];
            let mut b = g[rng.below(g.len() as u64) as usize];
            for _ in 0..32 {
                if ok(b) && self.good[row[b as usize] as usize].len() > 2 {
                    break;
                }
                b = g[rng.below(g.len() as u64) as usize];
            }
            if !ok(b) {
                b = *g.iter().find(|&&b| ok(b)).unwrap();
            }
            w.push(b);
            s = row[b as usize] as usize;
        }
    }

    pub fn has_silent(&self) -> bool {
        self.n > 1
            && (0..self.n).any(|s| (0..256).any(|b| self.next[s * 256 + b] as usize == s && self.outs[s * 256 + b] == 0))
    }

    /// bytes accepted somewhere, and some that never are
    pub fn accepts_all(&self) -> bool {
        self.next[..256].iter().all(|&t| t != 0xffff)
    }
}

impl Machine {
    pub fn run(&self, w: &[u8], out: &mut Vec<u8>) -> bool {
        match self {
            Machine::Table(t) => t.run(w, out),
            Machine::Perm(p) => {
                out.clear();
                if w.len() % p.len() != 0 {
                    return false;
                }
                out.reserve(w.len());
                for c in w.chunks_exact(p.len()) {
                    for &i in p {
                        out.push(c[i - 1]);
                    }
                }
                true
            }
        }
    }
    pub fn word(&self, n: usize, selfloop: u32, rng: &mut Rng) -> Option<Vec<u8>> {
        match self {
            Machine::Table(t) => t.word(n, selfloop, rng),
            Machine::Perm(p) => {
                if n % p.len() != 0 {
                    return None;
                }
                Some((0..n).map(|_| rng.next() as u8).collect())
            }
        }
    }
    pub fn has_silent(&self) -> bool {
        matches!(self, Machine::Table(t) if t.has_silent())
    }
    pub fn accepts_all(&self) -> bool {
        match self {
            Machine::Table(t) => t.accepts_all(),
            Machine::Perm(_) => true,
        }
    }
}

#[derive(Clone, Debug)]
pub struct OpFacts {
    pub m: String,
    pub form: String,
    pub pol: String,
    pub unit: usize,
}
#[derive(Clone, Debug)]
pub struct CodecFacts {
    pub alpha: Vec<u8>,
    pub q: u128,
    pub qb: u128,
    pub lens: Vec<u128>,
}

#[derive(Default)]
pub struct Spec {
    pub machines: HashMap<String, Machine>,
    pub ops: HashMap<String, OpFacts>,
    pub codecs: HashMap<String, CodecFacts>,
}

impl Spec {
    /// Text form made by run.py from the ndjson TLC wrote.
    pub fn load(path: &str) -> Spec {
        let text = std::fs::read_to_string(path).expect("spec tables");
        let mut sp = Spec::default();
        let mut lines = text.lines();
        while let Some(l) = lines.next() {
            let mut f = l.split(' ');
            match f.next().unwrap() {
                "op" => {
                    let v: Vec<&str> = f.collect();
                    sp.ops.insert(
                        v[0].into(),
                        OpFacts { m: v[1].into(), form: v[2].into(), pol: v[3].into(), unit: v[4].parse().unwrap() },
                    );
                }
                "codec" => {
                    let id = f.next().unwrap().to_string();
                    let n: Vec<u128> = f.map(|x| x.parse().unwrap()).collect();
                    let na = n[2] as usize;
                    sp.codecs.insert(
                        id,
                        CodecFacts {
                            q: n[0],
                            qb: n[1],
                            alpha: n[3..3 + na].iter().map(|&x| x as u8).collect(),
                            lens: n[3 + na..].to_vec(),
                        },
                    );
                }
                "perm" => {
                    let id = f.next().unwrap().to_string();
                    sp.machines.insert(id, Machine::Perm(f.map(|x| x.parse().unwrap()).collect()));
                }
                "machine" => {
                    let id = f.next().unwrap().to_string();
                    let n: usize = f.next().unwrap().parse().unwrap();
                    let mut t = Table {
                        n,
                        next: Vec::with_capacity(n * 256),
                        outs: Vec::with_capacity(n * 256),
                        fin: Vec::new(),
                        alive: vec![],
                        can: vec![],
                        good: vec![],
                    };
                    for _ in 0..n {
                        for tok in lines.next().unwrap().split(' ') {
                            let mut it = tok.split(',').map(|x| x.parse::<u32>().unwrap());
                            let nx = it.next().unwrap();
                            t.next.push(if nx == 0 { 0xffff } else { (nx - 1) as u16 });
                            let o: Vec<u32> = it.collect();
                            assert!(o.len() <= 3);
                            let mut x = (o.len() as u32) << 24;
                            for (i, b) in o.iter().enumerate() {
                                x |= b << (8 * i);
                            }
                            t.outs.push(x);
                        }
                        assert_eq!(t.next.len() % 256, 0);
                    }
                    for tok in lines.next().unwrap().split(' ') {
                        let v: Vec<u32> = tok.split(',').map(|x| x.parse().unwrap()).collect();
                        t.fin.push(if v[0] == 0 { None } else { Some(v[1..].iter().map(|&x| x as u8).collect()) });
                    }
                    assert_eq!(t.fin.len(), n);
                    t.prepare();
                    sp.machines.insert(id, Machine::Table(t));
                }
                x => panic!("bad table line {x}"),
            }
        }
        sp
    }
}
