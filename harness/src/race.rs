//! First calls of operations by several threads.
//!
//! `race`: every trial runs in a forked child, so that the operation has never been called before.
//!   - scheduled trials follow a behaviour of spec/Dispatch.tla: "S t" starts thread t's next call
//!     and lets it run until it completes or stops at a feature query; "R t" lets it go on.
//!   - free trials start many threads at a barrier.
//!   - storms: threads step through related operations in time with each other, then call them in
//!     any order thousands of times.
//! `race-miri`: the same calls without fork or hook, for the interpreter's schedules and
//! weak-memory behaviours.

use crate::cases::{self, Case};
use crate::ops::{self, OpImpl};
use crate::{arg, jstr, num};
use std::collections::HashMap;
use std::sync::{Arc, Barrier};

pub fn miri() -> String {
    let reg: &'static Vec<OpImpl> = Box::leak(Box::new(ops::registry()));
    let cs = cases::load(&arg("--cases").expect("--cases"));
    let mut n = 0;
    let mut bad: Vec<String> = vec![];
    for c in &cs {
        let op: &'static OpImpl = reg.iter().find(|o| o.name == c.op).unwrap();
        let bar = Arc::new(Barrier::new(2));
        let hs: Vec<_> = (0..2)
            .map(|_| {
                let (c, b) = (c.clone(), bar.clone());
                std::thread::spawn(move || {
                    let p = ops::prepare(op, &c.src, c.dlen);
                    b.wait();
                    let a = ops::show(p());
                    let b = cases::run_case(op, &c);
                    (a, b)
                })
            })
            .collect();
        for h in hs {
            let (a, b) = h.join().unwrap();
            n += 2;
            for x in [a, b] {
                if c.want != "-" && x != c.want {
                    bad.push(format!("{} {} {x}", c.op, crate::engine::hex(&c.src)));
                }
            }
        }
    }
    if !bad.is_empty() {
        println!("RACE-MISMATCH {}", bad[0]);
    }
    format!("{{\"calls\":{n},\"violations\":[],\"bad\":{}}}", bad.len())
}

#[cfg(all(vsimd_verif, not(miri)))]
pub use native::run;

#[cfg(all(vsimd_verif, not(miri)))]
mod native {
    use super::*;
    use crate::isa_mask;
    use crate::rng::Rng;
    use std::cell::Cell;
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
    use std::sync::{Condvar, Mutex};
    use std::time::{Duration, Instant};

    extern "C" {
        fn fork() -> i32;
        fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
        fn _exit(c: i32) -> !;
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
        fn pipe(fd: *mut i32) -> i32;
        fn read(fd: i32, p: *mut u8, n: usize) -> isize;
        fn close(fd: i32) -> i32;
        fn alarm(s: u32) -> u32;
    }

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    enum St {
        Idle,
        Running,
        Paused,
    }
    struct Ctl {
        st: Vec<St>,
        go: Vec<bool>,    // may pass the gate
        start: Vec<u32>,  // calls to make
        done: Vec<u32>,   // calls made
        res: Vec<bool>,   // all results right so far
        quit: bool,
    }
    static CTL: Mutex<Option<Ctl>> = Mutex::new(None);
    static CV: Condvar = Condvar::new();
    static DELAY: AtomicU64 = AtomicU64::new(0);
    static GATED: AtomicBool = AtomicBool::new(false);
    thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

    /// Feature queries arrive here.
    fn gate(f: &'static str) -> bool {
        let me = ME.with(|m| m.get());
        if me != usize::MAX && GATED.load(SeqCst) {
            let mut g = CTL.lock().unwrap();
            if !g.as_ref().unwrap().go[me] {
                g.as_mut().unwrap().st[me] = St::Paused;
                CV.notify_all();
                while !g.as_ref().unwrap().go[me] {
                    g = CV.wait(g).unwrap();
                }
                g.as_mut().unwrap().st[me] = St::Running;
            }
        }
        let d = DELAY.load(SeqCst);
        if d != 0 {
            let mut x = d.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(me as u64 * 77);
            x ^= x >> 31;
            for _ in 0..(x % 3000) {
                std::hint::spin_loop();
            }
            DELAY.store(x | 1, SeqCst);
        }
        isa_mask::allows(f)
    }

    /// One scheduled trial; the observations as text, one per command.
    fn scheduled(op: &'static OpImpl, c: &Case, sched: &[(char, usize)]) -> (bool, Vec<String>) {
        let nt = 3;
        *CTL.lock().unwrap() =
            Some(Ctl { st: vec![St::Idle; nt], go: vec![false; nt], start: vec![0; nt], done: vec![0; nt], res: vec![true; nt], quit: false });
        GATED.store(true, SeqCst);
        let mut hs = vec![];
        for t in 0..nt {
            let c = c.clone();
            hs.push(std::thread::spawn(move || {
                ME.with(|m| m.set(t));
                loop {
                    let mut g = CTL.lock().unwrap();
                    loop {
                        let x = g.as_ref().unwrap();
                        if x.quit {
                            return;
                        }
                        if x.start[t] > x.done[t] {
                            break;
                        }
                        g = CV.wait(g).unwrap();
                    }
                    g.as_mut().unwrap().st[t] = St::Running;
                    drop(g);
                    let r = cases::run_case(op, &c);
                    let mut g = CTL.lock().unwrap();
                    let x = g.as_mut().unwrap();
                    x.done[t] += 1;
                    x.st[t] = St::Idle;
                    x.go[t] = false;
                    if c.want != "-" && r != c.want {
                        x.res[t] = false;
                    }
                    CV.notify_all();
                }
            }));
        }
        let mut obs = vec![];
        let mut pending = vec![false; nt]; // started, neither paused nor done when last looked
        let mut fine = true;
        for &(k, t) in sched {
            let mut g = CTL.lock().unwrap();
            {
                let x = g.as_mut().unwrap();
                if k == 'S' {
                    if x.start[t] > x.done[t] {
                        // still held up by another thread's initialisation
                        obs.push(format!("[\"S\",{},\"busy\",{}]", t + 1, x.res[t]));
                        continue;
                    }
                    x.start[t] += 1;
                } else {
                    x.go[t] = true;
                }
            }
            CV.notify_all();
            let other_paused = (0..nt).any(|u| u != t && g.as_ref().unwrap().st[u] == St::Paused);
            let until = Instant::now() + Duration::from_millis(if other_paused || pending.iter().any(|p| *p) { 60 } else { 8000 });
            let o = loop {
                let x = g.as_ref().unwrap();
                if x.done[t] == x.start[t] {
                    break "done";
                }
                if x.st[t] == St::Paused && !x.go[t] {
                    break "paused";
                }
                let now = Instant::now();
                if now >= until {
                    break "waits";
                }
                g = CV.wait_timeout(g, until - now).unwrap().0;
            };
            pending[t] = o == "waits";
            let res = g.as_ref().unwrap().res[t];
            fine &= res;
            obs.push(format!("[\"{k}\",{},\"{o}\",{res}]", t + 1));
        }
        // let everything finish
        {
            let mut g = CTL.lock().unwrap();
            for t in 0..nt {
                g.as_mut().unwrap().go[t] = true;
            }
            CV.notify_all();
            let until = Instant::now() + Duration::from_secs(8);
            loop {
                let x = g.as_ref().unwrap();
                if (0..nt).all(|t| x.start[t] == x.done[t]) {
                    break;
                }
                let now = Instant::now();
                if now >= until {
                    return (false, vec!["[\"E\",0,\"stuck\",false]".into()]);
                }
                for t in 0..nt {
                    g.as_mut().unwrap().go[t] = true;
                }
                CV.notify_all();
                g = CV.wait_timeout(g, Duration::from_millis(20)).unwrap().0;
            }
            let x = g.as_mut().unwrap();
            fine &= x.res.iter().all(|r| *r);
            obs.push(format!("[\"E\",0,\"end\",{}]", x.res.iter().all(|r| *r)));
            x.quit = true;
            CV.notify_all();
        }
        for h in hs {
            let _ = h.join();
        }
        (fine, obs)
    }

    /// Many threads, no control: all start at a barrier, each makes a few calls.
    fn free(opsv: &[&'static OpImpl], cs: &[Case], seed: u64) -> (bool, Vec<String>) {
        DELAY.store(seed | 1, SeqCst);
        let nt = 6;
        let bar = Arc::new(Barrier::new(nt));
        let bad = Arc::new(Mutex::new(None::<(String, String)>));
        let hs: Vec<_> = (0..nt)
            .map(|t| {
                let (bar, bad) = (bar.clone(), bad.clone());
                let mine: Vec<(&'static OpImpl, Case)> = (0..opsv.len()).map(|i| (i + t * (seed as usize % 2)) % opsv.len()).map(|i| (opsv[i], cs[i].clone())).collect();
                std::thread::spawn(move || {
                    ME.with(|m| m.set(t));
                    let prepared: Vec<_> = mine.iter().map(|(o, c)| (ops::prepare(o, &c.src, c.dlen), *o, c)).collect();
                    bar.wait();
                    for (p, o, c) in prepared {
                        for (k, r) in [ops::show(p()), cases::run_case(o, c)].into_iter().enumerate() {
                            if c.want != "-" && r != c.want {
                                *bad.lock().unwrap() = Some((c.op.clone(), format!("call {k} of thread {t}: {r}")));
                            }
                        }
                    }
                })
            })
            .collect();
        let mut fine = true;
        for h in hs {
            fine &= h.join().is_ok();
        }
        let b = bad.lock().unwrap().take();
        match b {
            Some((o, x)) => (false, vec![format!("{o}: {x}")]),
            None => (fine, vec![]),
        }
    }

    /// Everything one thread needs to make a call many times.
    struct Fast {
        op: &'static OpImpl,
        src: Vec<u32>,
        n: usize,
        dst: Vec<u32>,
        dlen: usize,
        want: Option<Vec<u8>>,
        vec: Vec<u8>,
        text: String,
    }
    impl Fast {
        /// None where the specification leaves the outcome open or announces a panic
        fn new(op: &'static OpImpl, c: &Case) -> Option<Fast> {
            let want = match c.want.as_str() {
                "-" | "panic" => return None,
                "err" => None,
                w => Some((3..w.len()).step_by(2).map(|i| u8::from_str_radix(&w[i..i + 2], 16).unwrap()).collect()),
            };
            let mut src = vec![0u32; c.src.len() / 4 + 1];
            unsafe { core::ptr::copy_nonoverlapping(c.src.as_ptr(), src.as_mut_ptr().cast::<u8>(), c.src.len()) };
            Some(Fast { op, src, n: c.src.len(), dst: vec![0u32; c.dlen.max(c.src.len()) / 4 + 1], dlen: c.dlen, want, vec: vec![], text: String::new() })
        }
        #[inline]
        fn right(&mut self) -> bool {
            use crate::ops::Call;
            let s = unsafe { core::slice::from_raw_parts(self.src.as_ptr().cast::<u8>(), self.n) };
            let d = self.dst.as_mut_ptr().cast::<u8>();
            let same = |r: Result<(*const u8, usize), ()>, want: &Option<Vec<u8>>| match (r, want) {
                (Err(()), None) => true,
                (Ok((p, n)), Some(w)) => n == w.len() && (n == 0 || unsafe { core::slice::from_raw_parts(p, n) } == &w[..]),
                _ => false,
            };
            match &self.op.call {
                Call::Slice(c) => same(c(s, d, self.dlen), &self.want),
                Call::InPlace(c) => {
                    unsafe { core::ptr::copy_nonoverlapping(s.as_ptr(), d, self.n) };
                    same(c(d, self.n), &self.want)
                }
                Call::Owned(c) => c(s).ok() == self.want,
                Call::AppendVec(c) => {
                    self.vec.clear();
                    let r = c(s, &mut self.vec);
                    same(r.map(|_| (self.vec.as_ptr(), self.vec.len())), &self.want)
                }
                Call::AppendStr(c) => {
                    self.text.clear();
                    let r = c(s, &mut self.text);
                    same(r.map(|_| (self.text.as_ptr(), self.text.len())), &self.want)
                }
                Call::Test(c) => c(s) == self.want.is_some(),
                Call::Length(c) => c(s).ok().map(|n| n.to_string().into_bytes()) == self.want,
            }
        }
    }

    /// Threads in step through the first calls, then out of step.
    fn storm(opsv: &[&'static OpImpl], cs: &[Case], seed: u64, nt: usize, rounds: usize) -> (bool, Vec<String>) {
        let at: Arc<Vec<AtomicU64>> = Arc::new((0..=opsv.len()).map(|_| AtomicU64::new(0)).collect());
        let hs: Vec<_> = (0..nt)
            .map(|t| {
                let at = at.clone();
                let mut fs: Vec<Fast> = opsv.iter().zip(cs).filter_map(|(o, c)| Fast::new(o, c)).collect();
                std::thread::spawn(move || {
                    let mut rng = Rng::new(seed.wrapping_mul(77) + t as u64);
                    let meet = |i: usize| {
                        at[i].fetch_add(1, SeqCst);
                        let mut k = 0u32;
                        while at[i].load(SeqCst) < nt as u64 {
                            k += 1;
                            if k % 4096 == 0 {
                                std::thread::yield_now();
                            }
                            std::hint::spin_loop();
                        }
                    };
                    let mut bad: Option<String> = None;
                    for i in 0..fs.len() {
                        meet(i);
                        for _ in 0..rng.below(3) * rng.below(20) {
                            std::hint::spin_loop();
                        }
                        for k in 0..2 {
                            if bad.is_none() && !fs[i].right() {
                                bad = Some(format!("{}: call {k} of thread {t}", fs[i].op.name));
                            }
                        }
                    }
                    let n = fs.len() as u64;
                    for k in 0..if n == 0 { 0 } else { rounds } {
                        let i = rng.below(n) as usize;
                        if bad.is_none() && !fs[i].right() {
                            bad = Some(format!("{}: later call {k} of thread {t}", fs[i].op.name));
                        }
                    }
                    bad
                })
            })
            .collect();
        let mut obs = vec![];
        let mut fine = true;
        for h in hs {
            match h.join() {
                Ok(None) => {}
                Ok(Some(b)) => {
                    fine = false;
                    obs.push(b)
                }
                Err(_) => {
                    fine = false;
                    obs.push("a thread panicked".into())
                }
            }
        }
        (fine, obs)
    }

    /// Operations that may share state: the variants of one encoding.
    fn family(n: &str) -> &str {
        let f = n.split('.').next().unwrap();
        if f == "forgiving" {
            "b64"
        } else {
            &f[..f.len().min(3)]
        }
    }

    pub fn run() -> String {
        vsimd::isa::verif::install(gate);
        let cs = cases::load(&arg("--cases").expect("--cases"));
        let scheds: Vec<Vec<(char, usize)>> = std::fs::read_to_string(arg("--schedules").expect("--schedules"))
            .unwrap()
            .lines()
            .map(|l| l.split(' ').map(|x| (x.chars().next().unwrap(), x[1..].parse::<usize>().unwrap() - 1)).collect())
            .collect();
        let mut by: HashMap<String, Vec<Case>> = HashMap::new();
        for c in &cs {
            by.entry(c.op.clone()).or_default().push(c.clone());
        }
        let reg: &'static Vec<OpImpl> = Box::leak(Box::new(ops::registry()));
        let mut names: Vec<&String> = by.keys().collect();
        names.sort();
        let (part, parts) = (num("--part", 0), num("--parts", 1));
        let per = num("--per", 20);
        let nfree = num("--free", 100);
        let rec_every = num("--rec-every", 10);
        let mut rng = Rng::new(num("--seed", 1) as u64 + part as u64 * 1000);
        let mut trace = String::new();
        let mut v: Vec<String> = vec![];
        let (mut trials, mut calls) = (0u64, 0u64);
        enum Job {
            Sched(&'static OpImpl, Case, Vec<(char, usize)>),
            Free(Vec<&'static OpImpl>, Vec<Case>, u64),
            Storm(Vec<&'static OpImpl>, Vec<Case>, u64),
        }
        let (nt, rounds) = (num("--threads", 4), num("--rounds", 4000));
        let mut jobs = vec![];
        for (i, n) in names.iter().enumerate() {
            if i % parts != part {
                continue;
            }
            let op = reg.iter().find(|o| &&o.name == n).expect("op");
            for k in 0..per {
                let c = by[*n][k % by[*n].len()].clone();
                // every behaviour is used about equally often over the operations
                let s = if k == 0 { scheds[0].clone() } else { scheds[rng.below(scheds.len() as u64) as usize].clone() };
                jobs.push(Job::Sched(op, c, s));
            }
        }
        for k in 0..nfree {
            let mut o = vec![];
            let mut c = vec![];
            for _ in 0..(1 + k % 6) {
                let n = names[rng.below(names.len() as u64) as usize];
                o.push(reg.iter().find(|x| &x.name == n).unwrap());
                c.push(by[n][rng.below(by[n].len() as u64) as usize].clone());
            }
            jobs.push(Job::Free(o, c, rng.next() | 1));
        }
        for k in 0..num("--storms", 0) {
            // every operation leads equally often; the others are of its family, half the time its siblings
            let lead = names[(k + part * 37) % names.len()];
            let (fam, method) = (family(lead), lead.split('.').nth(1));
            let kin: Vec<&&String> = names.iter().filter(|n| family(n) == fam && (k % 2 == 0 || n.split('.').nth(1) == method)).collect();
            let mut o = vec![];
            let mut c = vec![];
            for i in 0..(1 + rng.below(4)) {
                let n = if i == 0 { lead } else { *kin[rng.below(kin.len() as u64) as usize] };
                o.push(reg.iter().find(|x| &x.name == n).unwrap());
                c.push(by[n][rng.below(by[n].len() as u64) as usize].clone());
            }
            jobs.push(Job::Storm(o, c, rng.next() | 1));
        }
        for (ji, j) in jobs.iter().enumerate() {
            let mut fd = [0i32; 2];
            unsafe { assert!(pipe(fd.as_mut_ptr()) == 0) };
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe { alarm(25) };
                let (ok, obs) = match j {
                    Job::Sched(o, c, s) => scheduled(o, c, s),
                    Job::Free(o, c, s) => free(o, c, *s),
                    Job::Storm(o, c, s) => storm(o, c, *s, nt, rounds),
                };
                let t = obs.join(";");
                unsafe {
                    write(fd[1], t.as_ptr(), t.len());
                    _exit(if ok { 0 } else { 3 })
                }
            }
            assert!(pid > 0);
            unsafe { close(fd[1]) };
            let mut buf = vec![0u8; 1 << 16];
            let mut len = 0;
            loop {
                let n = unsafe { read(fd[0], buf.as_mut_ptr().add(len), buf.len() - len) };
                if n <= 0 {
                    break;
                }
                len += n as usize;
            }
            unsafe { close(fd[0]) };
            let mut st = 0i32;
            unsafe { waitpid(pid, &mut st, 0) };
            trials += 1;
            let text = String::from_utf8_lossy(&buf[..len]).to_string();
            let (op, src, dlen, hist, free) = match j {
                Job::Sched(o, c, s) => (o.name.clone(), crate::engine::hex(&c.src), c.dlen, s.iter().map(|(k, t)| format!("{k}{}", t + 1)).collect::<Vec<_>>().join(" "), false),
                Job::Free(_, c, s) => (c.iter().map(|c| c.op.clone()).collect::<Vec<_>>().join("+"), String::new(), 0, format!("free {s}"), true),
                Job::Storm(_, c, s) => (c.iter().map(|c| c.op.clone()).collect::<Vec<_>>().join("+"), String::new(), 0, format!("storm {s}"), true),
            };
            calls += match j {
                Job::Sched(_, _, s) => s.iter().filter(|(k, _)| *k == 'S').count() as u64,
                Job::Free(o, _, _) => o.len() as u64 * 12,
                Job::Storm(o, _, _) => nt as u64 * (2 * o.len() + rounds) as u64,
            };
            if st != 0 && v.len() < 12 {
                let what = if st & 0x7f != 0 {
                    if st & 0x7f == 14 { "calls never returned".to_string() } else { format!("child ended by signal {}", st & 0x7f) }
                } else if text.contains("stuck") {
                    "a call never returned".into()
                } else if st >> 8 == 77 || st >> 8 == 78 {
                    "a call faulted".into()
                } else {
                    "a call returned another result than sequential code".into()
                };
                v.push(format!(
                    "{{\"kind\":\"race\",\"op\":{},\"src\":{},\"dlen\":{dlen},\"what\":{},\"history\":{},\"expected\":\"the sequential result\",\"got\":{}}}",
                    jstr(&op), jstr(&src), jstr(&what), jstr(&hist), jstr(&text)
                ));
            }
            if !free && ji % rec_every == 0 && !text.is_empty() {
                for (i, o) in text.split(';').enumerate() {
                    let f: Vec<&str> = o.trim_matches(|c| c == '[' || c == ']').split(',').collect();
                    trace.push_str(&format!("{{\"op\":{},\"first\":{},\"c\":{},\"t\":{},\"obs\":{},\"good\":{}}}\n", jstr(&op), i == 0, f[0], f[1], f[2], f[3]));
                }
            }
        }
        if let Some(t) = arg("--trace") {
            std::fs::write(t, trace).unwrap();
        }
        format!("{{\"calls\":{calls},\"trials\":{trials},\"violations\":[{}]}}", v.join(","))
    }
}
