//! Parallel encoding in pools of many sizes, against the machine of sequential encoding.

use crate::engine::{hex, Engine};
use crate::mem::Place;
use crate::ops::{self, Call, PAR_POOL};
use crate::tables::Spec;
use crate::{arg, jstr, num};
use std::sync::Arc;

pub fn run(spec: &Spec) -> String {
    let pools: Vec<usize> = arg("--pools").expect("--pools").split(',').map(|x| x.parse().unwrap()).collect();
    let rounds = num("--rounds", 1);
    let maxk = num("--maxk", 3);
    let grain = 4096usize;
    // the longest source, in bytes
    let big = num("--big", 1 << 20).max(pools.iter().max().unwrap() * grain * (maxk + 2));
    let cap = big * 4 / 3 + 65536;
    let mut e = Engine::new(spec, num("--seed", 1) as u64 * 977 + pools[0] as u64, cap);
    let reg = ops::registry();
    let ops: Vec<_> = reg.iter().filter(|o| o.name.ends_with(".par_encode")).collect();
    assert!(ops.len() == 4);
    let mut trace = String::new();
    let mut events = 0u64;
    for &p in &pools {
        let pool = Arc::new(rayon::ThreadPoolBuilder::new().num_threads(p).build().unwrap());
        *PAR_POOL.lock().unwrap() = Some(pool.clone());
        // around the threshold, around multiples of the pool size in quanta, and anywhere
        let mut lens: Vec<usize> = vec![0, 1, 2, 3, 100, p * grain - 1];
        for k in 1..=maxk {
            let base = k * p * grain;
            for d in 0..7 {
                lens.push(base + d);
            }
            let q = base / 3 / p * p * 3; // quanta divisible by the pool size
            for d in 0..3 * p.min(4) + 4 {
                lens.push(q + d);
                lens.push(q + 3 * p + d);
                lens.push((q + 3 * p).saturating_sub(d));
            }
            for _ in 0..12 {
                lens.push(base + e.rng.below((p * grain) as u64) as usize);
            }
        }
        for round in 0..rounds {
            // and of every magnitude up to the longest, off and on quantum and power-of-two boundaries
            let mut far = vec![];
            let mut x = p * grain;
            while x < big {
                let n = x + e.rng.below(x as u64) as usize;
                far.push(n.min(big));
                far.push((x + 3 * p + e.rng.below(7) as usize).min(big));
                x *= 2;
            }
            if round == 0 {
                far.push(big);
                far.push(big / (3 * p) * (3 * p));
            }
            let any = e.rng.below(4) as usize;
            let near = lens.iter().flat_map(|&n| (0..4).map(move |v| (n, v)));
            let jobs: Vec<(usize, usize)> = near.chain(far.iter().enumerate().map(|(i, &n)| (n, (i + any) % 4))).collect();
            for (n, variant) in jobs {
                let op = ops[variant];
                let f = &spec.ops[&op.name];
                let m = &spec.machines[&f.m];
                let mut w = e.rng.bytes(n);
                if e.rng.below(3) == 0 {
                    // distinct quanta, so that an exchange of chunks shows
                    for (i, c) in w.chunks_mut(3).enumerate() {
                        let v = (i as u32).to_be_bytes();
                        let k = c.len();
                        c.copy_from_slice(&v[1..1 + k]);
                    }
                }
                let ok = e.expect(m, &w);
                assert!(ok);
                let need = {
                    let mut o = vec![];
                    m.run(&w, &mut o);
                    o.len()
                };
                let pad = !op.name.contains("np.");
                let mut dl = vec![need, need + 1 + e.rng.below(5000) as usize];
                if need > 0 {
                    dl.push(need - 1);
                    dl.push(e.rng.below(need as u64) as usize);
                    if e.rng.below(8) == 0 {
                        dl.extend([0, need.saturating_sub(2), need.saturating_sub(4)]);
                    }
                }
                for d in dl {
                    let place = if e.rng.below(2) == 0 { Place::End } else { Place::Start };
                    e.slice_call(op, f, &w, true, d, Place::End, place);
                    *e.per_op.entry(op.name.clone()).or_default() += 1;
                    let (tag, len, same, excess) = e.last;
                    if n < 1 << 30 {
                        trace.push_str(&format!(
                            "{{\"op\":{},\"p\":{p},\"n\":{n},\"pad\":{pad},\"dlen\":{d},\"tag\":\"{tag}\",\"len\":{len},\"same\":{same},\"excess\":{excess}}}\n",
                            jstr(&op.name)
                        ));
                        events += 1;
                    }
                }
                if e.full() {
                    break;
                }
            }
            // several calls at once in one pool, and a call from inside a worker
            let m = &spec.machines[&spec.ops[&ops[0].name].m];
            let jobs: Vec<(Vec<u8>, Vec<u8>)> = (0..6)
                .map(|_| {
                    let n = p * grain + e.rng.below(9000) as usize;
                    let w = e.rng.bytes(n);
                    let mut o = vec![];
                    m.run(&w, &mut o);
                    (w, o)
                })
                .collect();
            *PAR_POOL.lock().unwrap() = None;
            let bad = std::sync::Mutex::new(Vec::<usize>::new());
            let op = ops[0];
            pool.scope(|s| {
                for (w, o) in &jobs {
                    let bad = &bad;
                    s.spawn(move |_| {
                        let Call::Slice(c) = &op.call else { return };
                        let mut d = vec![0u8; o.len()];
                        let r = c(w, d.as_mut_ptr(), d.len()).map(|r| r.1);
                        if r != Ok(o.len()) || &d != o {
                            bad.lock().unwrap().push(w.len());
                        }
                    });
                }
            });
            *PAR_POOL.lock().unwrap() = Some(pool.clone());
            e.calls += 6;
            for n in bad.into_inner().unwrap() {
                e.violations.push(crate::engine::Violation {
                    kind: "result",
                    op: op.name.clone(),
                    src: vec![],
                    dlen: 0,
                    what: format!("wrong text for {n} bytes from inside a worker of a pool of {p}"),
                    expected: "the sequential text".into(),
                    got: "another".into(),
                });
            }
        }
    }
    *PAR_POOL.lock().unwrap() = None;
    if let Some(t) = arg("--trace") {
        std::fs::write(t, trace).unwrap();
    }
    let v: Vec<String> = e
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":\"{}\",\"op\":{},\"src\":{},\"src_len\":{},\"dlen\":{},\"what\":{},\"expected\":{},\"got\":{}}}",
                v.kind, jstr(&v.op), jstr(&hex(&v.src[..v.src.len().min(200_000)])), v.src.len(), v.dlen, jstr(&v.what), jstr(&v.expected), jstr(&v.got)
            )
        })
        .collect();
    format!("{{\"calls\":{},\"events\":{events},\"violations\":[{}]}}", e.calls, v.join(","))
}
