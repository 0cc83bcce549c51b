//! Calls with the outcome the specification gives them, as text:  op dlen src-hex outcome
//! (outcome: "ok:<hex>", "err", "panic", "-" when the specification leaves it open).
//! Written by a build that has the tables, replayed by any other build, target or interpreter.

use crate::engine::hex;
use crate::ops::{self, OpImpl};
use crate::rng::Rng;
use crate::tables::{OpFacts, Spec};
use crate::{arg, jstr, num};
use std::io::Write;

#[derive(Clone)]
pub struct Case {
    pub op: String,
    pub dlen: usize,
    pub src: Vec<u8>,
    pub want: String,
}

/// module Api, operator Outcome
pub fn outcome(spec: &Spec, name: &str, f: &OpFacts, src: &[u8], dlen: usize) -> String {
    let m = &spec.machines[&f.m];
    let mut out = vec![];
    let ok = m.run(src, &mut out);
    let fits = match f.pol.as_str() {
        "exact" => out.len() <= dlen,
        "srclen" | "panic" => src.len() <= dlen,
        _ => true,
    };
    let _ = name;
    match f.form.as_str() {
        "length" => {
            if ok {
                format!("ok:{}", hex(out.len().to_string().as_bytes()))
            } else {
                "-".into()
            }
        }
        _ if f.pol == "panic" && !fits => "panic".into(),
        _ if !(ok && fits) => "err".into(),
        "test" => "ok:".into(),
        _ => format!("ok:{}", hex(&out)),
    }
}

pub fn need(f: &OpFacts, spec: &Spec, src: &[u8]) -> usize {
    let mut out = vec![];
    let ok = spec.machines[&f.m].run(src, &mut out);
    match f.form.as_str() {
        "fixed" if f.m.starts_with("parse") => 16,
        "fixed" => out.len(),
        "raw" => {
            if ok {
                out.len()
            } else {
                src.len()
            }
        }
        _ if f.pol == "exact" => {
            if ok {
                out.len()
            } else {
                src.len() * 2
            }
        }
        _ => src.len(),
    }
}

/// Words for one operation: accepted, disturbed and arbitrary ones.
pub fn words(spec: &Spec, f: &OpFacts, lens: &[usize], per: usize, rng: &mut Rng) -> Vec<Vec<u8>> {
    let m = &spec.machines[&f.m];
    let mut v: Vec<Vec<u8>> = vec![];
    let fmt = f.m.starts_with("fmt");
    for &n in lens {
        for k in 0..per {
            let mut w = match m.word(if fmt { 16 } else { n / f.unit * f.unit }, 0, rng) {
                Some(w) => w,
                None => {
                    if f.m.starts_with("parse") && k > 0 {
                        continue;
                    }
                    rng.bytes(n / f.unit * f.unit)
                }
            };
            if k % 2 == 1 && !w.is_empty() && !fmt {
                let i = rng.below(w.len() as u64) as usize;
                w[i] = match rng.below(4) {
                    0 => w[i] ^ 0x20,
                    1 => w[i].wrapping_add(1),
                    2 => b'=',
                    _ => rng.next() as u8,
                };
            }
            v.push(w);
        }
    }
    v
}

/// Generate cases for every operation of --ops.
pub fn generate(spec: &Spec) -> String {
    let want: Vec<String> = std::fs::read_to_string(arg("--ops").expect("--ops")).unwrap().split_whitespace().map(|s| s.into()).collect();
    let lens: Vec<usize> = arg("--lens").expect("--lens").split(',').map(|x| x.parse().unwrap()).collect();
    let per = num("--per", 2);
    let mut rng = Rng::new(num("--seed", 1) as u64);
    let mut o = std::io::BufWriter::new(std::fs::File::create(arg("--cases").expect("--cases")).unwrap());
    let mut n = 0;
    for op in &want {
        let f = &spec.ops[op];
        let lens: Vec<usize> = match f.m.as_str() {
            "parse_simple" => vec![32, 32, 32, 31, 33],
            "parse_hyphen" => vec![36, 36, 36, 35, 37],
            "parse_any" => vec![32, 36, 38, 45, 32, 36, 38, 45, 37, 44],
            x if x.starts_with("fmt") => vec![16, 16],
            _ => lens.clone(),
        };
        for w in words(spec, f, &lens, per, &mut rng) {
            let nd = need(f, spec, &w);
            let mut dl = vec![nd];
            if f.form == "slice" && nd > 0 && rng.below(4) == 0 {
                dl.push((rng.below(nd as u64) as usize) / f.unit * f.unit);
                dl.push(nd + (rng.below(9) as usize) * f.unit);
            }
            for d in dl {
                let r = outcome(spec, op, f, &w, d);
                writeln!(o, "{op} {d} {} {r}", if w.is_empty() { "-".into() } else { hex(&w) }).unwrap();
                n += 1;
            }
        }
    }
    format!("{{\"calls\":{n},\"violations\":[]}}")
}

pub fn load(path: &str) -> Vec<Case> {
    let unhex = |h: &str| -> Vec<u8> {
        if h == "-" {
            return vec![];
        }
        let d = |c: u8| (c as char).to_digit(16).unwrap() as u8;
        h.as_bytes().chunks(2).map(|c| d(c[0]) << 4 | d(c[1])).collect()
    };
    std::fs::read_to_string(path)
        .expect("cases")
        .lines()
        .map(|l| {
            let v: Vec<&str> = l.split(' ').collect();
            Case { op: v[0].into(), dlen: v[1].parse().unwrap(), src: unhex(v[2]), want: v[3].into() }
        })
        .collect()
}

pub fn run_case(op: &OpImpl, c: &Case) -> String {
    ops::show(ops::prepare(op, &c.src, c.dlen)())
}

/// Replay cases; report every mismatch.
pub fn replay() -> String {
    let reg = ops::registry();
    let cs = load(&arg("--cases").expect("--cases"));
    // slow interpreters take a share each
    let (part, parts) = (num("--part", 0), num("--parts", 1));
    let mut v: Vec<String> = vec![];
    let mut n = 0u64;
    let label = arg("--label").unwrap_or_default();
    let every = num("--every", 1);
    let mut trace = arg("--trace").map(|t| std::io::BufWriter::new(std::fs::File::create(t).unwrap()));
    for (i, c) in cs.iter().enumerate() {
        if i % parts != part {
            continue;
        }
        let Some(op) = reg.iter().find(|o| o.name == c.op) else { continue };
        if cfg!(miri) && std::env::args().any(|a| a == "--progress") {
            println!("CASE {} {} {}", c.op, c.dlen, if c.src.is_empty() { "-".to_string() } else { hex(&c.src) });
        }
        let got = run_case(op, c);
        n += 1;
        if let Some(t) = trace.as_mut().filter(|_| i % every == 0) {
            writeln!(t, "{{\"b\":\"{label}\",\"c\":{i},\"o\":\"{got}\"}}").unwrap();
        }
        if c.want != "-" && got != c.want && v.len() < 12 {
            v.push(format!(
                "{{\"kind\":\"result\",\"op\":{},\"src\":{},\"dlen\":{},\"what\":\"wrong result\",\"expected\":{},\"got\":{}}}",
                jstr(&c.op), jstr(&hex(&c.src)), c.dlen, jstr(&c.want), jstr(&got)
            ));
        }
    }
    format!("{{\"calls\":{n},\"violations\":[{}],\"words\":{n},\"distinct\":{n},\"samples\":[]}}", v.join(","))
}
