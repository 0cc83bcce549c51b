//! Histories of owned and appending calls on a few containers (module History).

use crate::engine::{hex, jarr};
use crate::ops::{self, Call, OpImpl};
use crate::rng::Rng;
use crate::tables::Spec;
use crate::{arg, guard, jstr, num};
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

const NAMES: [&str; 4] = ["v0", "v1", "s0", "s1"];

#[derive(Clone, Debug)]
struct Step {
    k: &'static str,
    c: usize,
    d: usize,
    op: String,
    src: Vec<u8>,
    n: usize,
}

#[derive(Default)]
struct Boxes {
    v: [Vec<u8>; 2],
    s: [String; 2],
}
impl Boxes {
    fn bytes(&self, c: usize) -> &[u8] {
        if c < 2 {
            &self.v[c]
        } else {
            self.s[c - 2].as_bytes()
        }
    }
}

fn op<'a>(reg: &'a BTreeMap<String, OpImpl>, name: &str) -> &'a OpImpl {
    reg.get(name).expect("operation")
}

/// Make the step on the real containers; tag, or what went wrong.
fn apply(reg: &BTreeMap<String, OpImpl>, b: &mut Boxes, st: &Step) -> Result<bool, String> {
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<bool, String> {
        match st.k {
            "append" => {
                let o = op(reg, &st.op);
                crate::mem::set_cur(&o.name, st.src.as_ptr(), st.src.len(), 0);
                Ok(match &o.call {
                    Call::AppendVec(f) => f(&st.src, &mut b.v[st.c]).is_ok(),
                    Call::AppendStr(f) => f(&st.src, &mut b.s[st.c - 2]).is_ok(),
                    _ => return Err("not an appending operation".into()),
                })
            }
            "assign" => {
                let o = op(reg, &st.op);
                crate::mem::set_cur(&o.name, st.src.as_ptr(), st.src.len(), 0);
                let Call::Owned(f) = &o.call else { return Err("not an owned operation".into()) };
                match f(&st.src) {
                    Ok(x) if st.c < 2 => b.v[st.c] = x,
                    Ok(x) => b.s[st.c - 2] = String::from_utf8(x).map_err(|_| "the owned text is not UTF-8".to_string())?,
                    Err(()) => return Ok(false),
                }
                Ok(true)
            }
            "push" if st.c < 2 => {
                st.src.iter().for_each(|x| b.v[st.c].push(*x));
                Ok(true)
            }
            "push" => {
                b.s[st.c - 2].push_str(std::str::from_utf8(&st.src).unwrap());
                Ok(true)
            }
            "truncate" if st.c < 2 => {
                b.v[st.c].truncate(st.n);
                Ok(true)
            }
            "truncate" => {
                b.s[st.c - 2].truncate(st.n);
                Ok(true)
            }
            "clear" => {
                if st.c < 2 {
                    b.v[st.c].clear()
                } else {
                    b.s[st.c - 2].clear()
                }
                Ok(true)
            }
            "take" => {
                if st.c < 2 {
                    drop(std::mem::take(&mut b.v[st.c]))
                } else {
                    drop(std::mem::take(&mut b.s[st.c - 2]))
                }
                Ok(true)
            }
            "reserve" => {
                if st.c < 2 {
                    b.v[st.c].reserve(st.n)
                } else {
                    b.s[st.c - 2].reserve_exact(st.n)
                }
                Ok(true)
            }
            "shrink" => {
                if st.c < 2 {
                    b.v[st.c].shrink_to_fit()
                } else {
                    b.s[st.c - 2].shrink_to_fit()
                }
                Ok(true)
            }
            "copy" => {
                if st.c < 2 {
                    b.v[st.c] = b.v[st.d].clone()
                } else {
                    b.s[st.c - 2] = b.s[st.d - 2].clone()
                }
                Ok(true)
            }
            "bytes" => {
                b.v[st.c] = std::mem::take(&mut b.s[st.d - 2]).into_bytes();
                Ok(true)
            }
            "text" => match String::from_utf8(std::mem::take(&mut b.v[st.d])) {
                Ok(t) => {
                    b.s[st.c - 2] = t;
                    Ok(true)
                }
                Err(e) => {
                    b.v[st.d] = e.into_bytes();
                    Ok(false)
                }
            },
            x => Err(format!("step {x}")),
        }
    }))
    .unwrap_or_else(|_| Err("panic".into()))?;
    if let Some(e) = guard::take() {
        return Err(e.into());
    }
    for i in 0..2 {
        if b.v[i].len() > b.v[i].capacity() || b.s[i].len() > b.s[i].capacity() {
            return Err("length beyond the capacity".into());
        }
        if std::str::from_utf8(b.s[i].as_bytes()).is_err() {
            return Err(format!("the text {} is not UTF-8: {}", NAMES[i + 2], hex(b.s[i].as_bytes())));
        }
    }
    Ok(r)
}

/// module History, operators Tag and After
fn expect(spec: &Spec, m: &mut [Vec<u8>; 4], st: &Step) -> bool {
    match st.k {
        "append" | "assign" => {
            let mut out = vec![];
            let ok = spec.machines[&spec.ops[&st.op].m].run(&st.src, &mut out);
            if ok && st.k == "append" {
                m[st.c].extend(out)
            } else if ok {
                m[st.c] = out
            }
            return ok;
        }
        "push" => m[st.c].extend(&st.src),
        "truncate" => m[st.c].truncate(st.n),
        "clear" | "take" => m[st.c].clear(),
        "copy" => m[st.c] = m[st.d].clone(),
        "bytes" => m[st.c] = std::mem::take(&mut m[st.d]),
        "text" => {
            if std::str::from_utf8(&m[st.d]).is_err() {
                return false;
            }
            m[st.c] = std::mem::take(&mut m[st.d])
        }
        _ => {}
    }
    true
}

fn event(st: &Step, ok: bool, b: &Boxes) -> String {
    format!(
        "{{\"k\":\"{}\",\"c\":\"{}\",\"d\":\"{}\",\"op\":\"{}\",\"src\":{},\"n\":{},\"tag\":\"{}\",\"v0\":{},\"v1\":{},\"s0\":{},\"s1\":{}}}",
        st.k, NAMES[st.c], NAMES[st.d], st.op, jarr(&st.src), st.n, if ok { "ok" } else { "err" },
        jarr(b.bytes(0)), jarr(b.bytes(1)), jarr(b.bytes(2)), jarr(b.bytes(3))
    )
}

fn show(h: &[Step]) -> String {
    h.iter()
        .map(|s| match s.k {
            "append" | "assign" => format!("{} {} {} {}", s.k, NAMES[s.c], s.op, hex(&s.src)),
            "copy" | "bytes" | "text" => format!("{} {} {}", s.k, NAMES[s.c], NAMES[s.d]),
            "push" => format!("push {} {}", NAMES[s.c], hex(&s.src)),
            _ => format!("{} {} {}", s.k, NAMES[s.c], s.n),
        })
        .collect::<Vec<_>>()
        .join("; ")
}

struct Gen<'a> {
    spec: &'a Spec,
    rng: Rng,
    append: Vec<String>,
    owned: Vec<String>,
    max: usize,
    sizes: Vec<usize>,
}
impl Gen<'_> {
    fn source(&mut self, op: &str) -> Vec<u8> {
        let m = &self.spec.machines[&self.spec.ops[op].m];
        let i = self.rng.below(self.sizes.len() as u64) as usize;
        let n = self.rng.below(self.sizes[i] as u64 + 1) as usize;
        let mut w = m.word(n, 0, &mut self.rng).unwrap_or_else(|| self.rng.bytes(n));
        // about a third of the decoded texts are spoiled somewhere
        if !m.accepts_all() && !w.is_empty() && self.rng.below(3) == 0 {
            let k = w.len();
            let i = match self.rng.below(4) {
                0 => k - 1,
                1 => k - 1 - self.rng.below(k.min(4) as u64) as usize,
                _ => self.rng.below(k as u64) as usize,
            };
            w[i] = [b'=', b'!', 0, 255, w[i] ^ 0x20, w[i].wrapping_add(1)][self.rng.below(6) as usize];
        }
        w
    }
    fn step(&mut self, m: &[Vec<u8>; 4]) -> Step {
        let c = self.rng.below(4) as usize;
        let mut st = Step { k: "reserve", c, d: c, op: String::new(), src: vec![], n: 0 };
        if m[c].len() > self.max {
            st.k = ["clear", "take", "truncate"][self.rng.below(3) as usize];
            return st;
        }
        match self.rng.below(20) {
            0..=10 => {
                let text = c >= 2;
                let i = self.rng.below(self.append.len() as u64) as usize;
                st.op = self.append[i].clone();
                if st.op.ends_with("append_string") != text {
                    st.op = if text { st.op.replace("dec_append_vec", "enc_append_string").replace("append_vec", "append_string") } else { st.op.replace("append_string", "append_vec") };
                    if st.op.starts_with("hex.enc") {
                        st.op = st.op.replace("hex.", "hexup.");
                    }
                }
                st.k = "append";
                st.src = self.source(&st.op);
            }
            11 | 12 => {
                let i = self.rng.below(self.owned.len() as u64) as usize;
                st.op = self.owned[i].clone();
                // texts take the texts' forms only
                if c >= 2 && !(st.op.ends_with("enc_string") || st.op.ends_with("enc_boxstr") || st.op.ends_with("to_string")) {
                    st.op = "b64std.to_string".into();
                }
                st.k = "assign";
                st.src = self.source(&st.op);
            }
            13 => {
                st.k = "push";
                st.src = if c < 2 { self.rng.bytes(1) } else { ["a", "\u{e9}", "\u{20ac}", "\u{1f600}"][self.rng.below(4) as usize].as_bytes().to_vec() };
            }
            14 => {
                st.k = "truncate";
                st.n = self.rng.below(m[c].len() as u64 + 1) as usize;
                if c >= 2 {
                    while st.n < m[c].len() && m[c][st.n] & 0xc0 == 0x80 {
                        st.n += 1;
                    }
                }
            }
            15 => {
                st.k = "reserve";
                st.n = self.rng.below(300) as usize;
            }
            16 => st.k = "shrink",
            17 => {
                st.k = ["clear", "take"][self.rng.below(2) as usize];
            }
            18 => {
                st.k = "copy";
                st.d = c ^ 1;
            }
            _ => {
                st.d = if c < 2 { 2 } else { 0 } + self.rng.below(2) as usize;
                st.k = if c < 2 { "bytes" } else { "text" };
            }
        }
        st
    }
}

pub fn run(spec: &Spec) -> String {
    let reg: BTreeMap<String, OpImpl> = ops::registry().into_iter().map(|o| (o.name.clone(), o)).collect();
    let mut viol: Vec<String> = vec![];
    let (mut steps, mut hists, mut fails) = (0u64, 0u64, 0u64);
    let mut per: BTreeMap<String, u64> = BTreeMap::new();
    let mut bad = |h: &[Step], what: &str, exp: String, got: String| {
        if viol.len() < 8 {
            let l = h.last().unwrap();
            viol.push(format!(
                "{{\"kind\":\"history\",\"op\":{},\"src\":{},\"dlen\":0,\"what\":{},\"expected\":{},\"got\":{},\"history\":{}}}",
                jstr(if l.op.is_empty() { l.k } else { &l.op }), jstr(&hex(&l.src)), jstr(what), jstr(&exp), jstr(&got), jstr(&show(h))
            ));
        }
    };
    if let Some(p) = arg("--replay") {
        // alphabet: "k c d op src n" lines up to "--", then histories: "i tag v0 s0|..." lines
        let t = std::fs::read_to_string(p).unwrap();
        let unhex = |h: &str| -> Vec<u8> { if h == "-" { vec![] } else { (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect() } };
        let at = |n: &str| NAMES.iter().position(|x| *x == n).unwrap();
        let kinds = ["append", "assign", "push", "truncate", "clear", "take", "reserve", "shrink", "copy", "bytes", "text"];
        let mut alpha: Vec<Step> = vec![];
        let mut lines = t.lines();
        for l in lines.by_ref() {
            if l == "--" {
                break;
            }
            let f: Vec<&str> = l.split(' ').collect();
            alpha.push(Step {
                k: kinds.iter().find(|k| **k == f[0]).unwrap(), c: at(f[1]), d: at(f[2]),
                op: if f[3] == "-" { String::new() } else { f[3].into() }, src: unhex(f[4]), n: f[5].parse().unwrap(),
            });
        }
        for l in lines {
            let mut b = Boxes::default();
            let mut h = vec![];
            hists += 1;
            for s in l.split('|') {
                let f: Vec<&str> = s.split(' ').collect();
                let st = alpha[f[0].parse::<usize>().unwrap() - 1].clone();
                h.push(st.clone());
                steps += 1;
                let r = apply(&reg, &mut b, &st);
                let ok = match r {
                    Err(e) => {
                        bad(&h, &e, "the step succeeds or fails as specified".into(), e.clone());
                        break;
                    }
                    Ok(x) => x,
                };
                let got = format!("{} {} {}", if ok { "ok" } else { "err" }, hex(b.bytes(0)), hex(b.bytes(2)));
                let d = |x: &str| if x == "-" { "" } else { x }.to_string();
                let want = format!("{} {} {}", f[1], d(f[2]), d(f[3]));
                if got != want {
                    bad(&h, "contents differ after the last step", want, got);
                    break;
                }
            }
        }
    }
    let n = num("--histories", 0);
    if n > 0 {
        let of_form = |f: &str| -> Vec<String> { spec.ops.iter().filter(|(k, o)| o.form == f && reg.contains_key(*k) && !k.starts_with("uuid") && !k.starts_with("unicode")).map(|(k, _)| k.clone()).collect() };
        let small = num("--max", 2000);
        let mut g = Gen {
            spec, rng: Rng::new(num("--seed", 1) as u64 * 7919 + num("--part", 0) as u64),
            append: of_form("append"), owned: of_form("owned"), max: small,
            sizes: if small < 200 { vec![8, 20, 40] } else { vec![6, 40, 130, 300, 300, 1500] },
        };
        assert!(g.append.len() == 29 && g.owned.len() > 70, "{} {}", g.append.len(), g.owned.len());
        let mut trace = arg("--trace").map(|t| std::io::BufWriter::new(std::fs::File::create(t).unwrap()));
        let len = num("--length", 40);
        'h: for h in 0..n {
            // now and then with long containers
            if small >= 200 {
                (g.max, g.sizes) = if h % 16 == 15 { (40_000, vec![40, 1500, 9000]) } else { (small, vec![6, 40, 130, 300, 300, 1500]) };
            }
            hists += 1;
            let mut b = Boxes::default();
            let mut m: [Vec<u8>; 4] = Default::default();
            let mut h: Vec<Step> = vec![];
            if let Some(t) = trace.as_mut() {
                writeln!(t, "{{\"k\":\"new\"}}").unwrap();
            }
            for _ in 0..len {
                let st = g.step(&m);
                h.push(st.clone());
                steps += 1;
                *per.entry(if st.op.is_empty() { st.k.into() } else { st.op.clone() }).or_default() += 1;
                let r = apply(&reg, &mut b, &st);
                let want = expect(spec, &mut m, &st);
                let ok = match r {
                    Err(e) => {
                        bad(&h, &e, "the step succeeds or fails as specified".into(), e.clone());
                        continue 'h;
                    }
                    Ok(x) => x,
                };
                fails += u64::from(!ok);
                if let Some(t) = trace.as_mut() {
                    writeln!(t, "{}", event(&st, ok, &b)).unwrap();
                }
                if ok != want {
                    bad(&h, "verdict of the last step", format!("success: {want}"), format!("success: {ok}"));
                    continue 'h;
                }
                if let Some(c) = (0..4).find(|&c| b.bytes(c) != &m[c][..]) {
                    bad(&h, &format!("contents of {} after the last step", NAMES[c]), hex(&m[c]), hex(b.bytes(c)));
                    continue 'h;
                }
            }
        }
    }
    let pj: Vec<String> = per.iter().map(|(k, n)| format!("{}:{n}", jstr(k))).collect();
    format!("{{\"calls\":{steps},\"histories\":{hists},\"failures\":{fails},\"violations\":[{}],\"per_op\":{{{}}},\"words\":{steps},\"distinct\":{steps},\"samples\":[]}}", viol.join(","), pj.join(","))
}
