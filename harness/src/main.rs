mod cases;
mod engine;
mod facts;
mod show;
mod families;
#[cfg(all(target_pointer_width = "64", target_os = "linux", not(miri)))]
mod giant;
mod guard;
mod history;
#[cfg(all(vsimd_verif, target_arch = "x86_64", not(miri)))]
mod isamode;
mod mem;
mod ops;
#[cfg(feature = "parallel")]
mod par;
mod race;
mod rng;
mod tables;

use engine::Engine;
use families::Params;
use std::collections::BTreeMap;
use std::io::Write;
use tables::Spec;

pub fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
pub fn num(name: &str, d: usize) -> usize {
    arg(name).map(|x| x.parse().unwrap()).unwrap_or(d)
}

// ---- instruction-set mask -------------------------------------------------------------------
#[cfg(vsimd_verif)]
pub mod isa_mask {
    use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
    pub static MASK: AtomicU32 = AtomicU32::new(u32::MAX);
    pub static QUERIES: AtomicU32 = AtomicU32::new(0);
    pub const NAMES: [&str; 4] = ["sse2", "ssse3", "sse4.1", "avx2"];
    /// A CPU without SSSE3 may announce some later features (K10), one without AVX2 others (Sandy Bridge, Piledriver).
    pub const ODD: u32 = 16;
    pub const AVX1: u32 = 32;
    fn needs(f: &str) -> Option<u32> {
        Some(match f {
            "sse2" | "sse" | "fxsr" => 1,
            "sse3" => 2 | ODD,
            "ssse3" => 2,
            "sse4.1" => 4,
            "popcnt" | "lzcnt" => 8 | ODD | AVX1,
            "sse4.2" | "avx" | "fma" | "bmi1" | "f16c" | "xsave" | "aes" | "pclmulqdq" => 8 | AVX1,
            "avx2" | "bmi2" | "movbe" => 8,
            _ => return None,
        })
    }
    pub fn allows(f: &'static str) -> bool {
        QUERIES.fetch_add(1, SeqCst);
        let m = MASK.load(SeqCst);
        match needs(f) {
            Some(b) => m & b != 0,
            None => m == u32::MAX,
        }
    }
    pub fn set_level(l: &str) {
        let m = match l {
            "fallback" => 0,
            "sse2" => 1,
            "sse3" => 1 | ODD,
            "ssse3" => 3,
            "sse4.1" => 7,
            "avx" => 7 | AVX1,
            "avx2" => 15,
            "native" => return,
            _ => panic!("level {l}"),
        };
        MASK.store(m, SeqCst);
        vsimd::isa::verif::install(allows);
    }
}
#[cfg(not(vsimd_verif))]
pub mod isa_mask {
    pub fn set_level(_l: &str) {}
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn lockstep(spec: &Spec, level: &str) -> String {
    let seed = num("--seed", 1) as u64;
    let scale = arg("--scale").unwrap_or("quick".into());
    let fams: Vec<String> = arg("--families").unwrap_or("lengths".into()).split(',').map(|s| s.to_string()).collect();
    let want: Vec<String> = std::fs::read_to_string(arg("--ops").expect("--ops")).unwrap().split_whitespace().map(|s| s.into()).collect();
    let reg = ops::registry();
    let mut groups: BTreeMap<String, Vec<(&ops::OpImpl, tables::OpFacts)>> = BTreeMap::new();
    let mut missing: Vec<String> = vec![];
    for w in &want {
        let f = spec.ops.get(w).unwrap_or_else(|| panic!("operation {w} not in the specification")).clone();
        match reg.iter().find(|o| &o.name == w) {
            Some(o) => groups.entry(f.m.clone()).or_default().push((o, f)),
            None => missing.push(w.clone()),
        }
    }
    assert!(missing.is_empty(), "not implemented in the driver: {missing:?}");
    let deep = num("--deep", 1) as u8;
    let p = match scale.as_str() {
        "miri" => Params { max_len: 140, per_len: 1, corrupt_lens: vec![], corrupt_values: 1, random: 10, large: vec![], deep: deep.min(1), step: 1, cover: 300, middling: 0, pairs: 1, units: 0 },
        "tiny" => Params {
            max_len: 150, per_len: 2, corrupt_lens: vec![4, 8, 16, 32, 36, 38, 40, 48, 64, 80, 96], corrupt_values: 6,
            random: 2000, large: vec![1000, 4096], deep, step: 1, cover: 20_000, middling: 257, pairs: 1, units: 1_000_000,
        },
        "small" => Params {
            max_len: 200, per_len: 3, corrupt_lens: vec![4, 8, 12, 16, 24, 32, 36, 38, 40, 44, 45, 48, 56, 64, 72, 80, 96, 128], corrupt_values: 24,
            random: 10000, large: vec![1000, 4096, 20000], deep, step: 1, cover: 60_000, middling: 514, pairs: 2, units: 2_000_000,
        },
        "quick" => Params {
            max_len: 330, per_len: 6,
            corrupt_lens: vec![1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 28, 31, 32, 33, 34, 36, 38, 40, 42, 44, 45, 48, 52, 56, 60, 64, 66, 68, 72, 76, 80, 88, 96, 100, 112, 128],
            corrupt_values: 256, random: 60000,
            large: vec![1000, 4092, 4096, 4100, 8192, 65532, 65536, 65544, 262144], deep, step: 1, cover: 250_000, middling: 1028, pairs: 3, units: 20_000_000,
        },
        _ => Params {
            max_len: 1200, per_len: 24, corrupt_lens: (1..=200).chain([208, 216, 224, 240, 256, 320]).collect(), corrupt_values: 256, random: 1_000_000,
            large: vec![1000, 4092, 4095, 4096, 4097, 4098, 4100, 8192, 16384, 65528, 65532, 65536, 65540, 65544, 262144, 1 << 20, (1 << 20) + 24, 3 << 20],
            deep, step: 1, cover: 4_000_000, middling: 6 * 1028, pairs: 12, units: 1_000_000_000,
        },
    };
    let cap = if cfg!(miri) { 8192 } else { (p.large.iter().max().copied().unwrap_or(0) + 16384).max(32768) };
    let mut e = Engine::new(spec, seed ^ (level.len() as u64) << 32, cap);
    e.kinds = arg("--kinds").map(|k| k.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
    e.verdict_only = std::env::args().any(|a| a == "--verdict-only");
    e.confirm = arg("--confirm").unwrap_or_default();
    e.registry = ops::registry();
    e.limit = num("--limit", 8);
    if let Some(r) = arg("--record") {
        e.rec = Some(engine::Recorder {
            file: std::io::BufWriter::new(std::fs::File::create(r).unwrap()),
            n: 0,
            limit: num("--rec-limit", 2000) as u64,
            every: num("--rec-every", 7) as u64,
            seen: 0,
        });
    }
    let mut uses = vec![];
    let p0 = p;
    for (mid, g) in &groups {
        // many delivery forms of one function share the budget
        let share = |x: usize| x * 4 / g.len().max(4);
        let p = Params { random: share(p0.random), cover: share(p0.cover), large: p0.large.clone(), corrupt_lens: p0.corrupt_lens.clone(), ..p0 };
        let m = spec.machines.get(mid).unwrap_or_else(|| panic!("no table for {mid}"));
        uses.push(mid.clone());
        for f in &fams {
            match f.as_str() {
                "lengths" => families::lengths(&mut e, m, g, &p),
                "corrupt" => {
                    // machines that accept every byte have no invalid letters: fewer lengths do
                    let lens: Vec<usize> = if m.accepts_all() { p.corrupt_lens.iter().copied().filter(|n| n % 3 == 0 || *n <= 36).collect() } else { p.corrupt_lens.clone() };
                    let vals = if m.accepts_all() { p.corrupt_values.min(if scale == "quick" { 40 } else { 256 }) } else { p.corrupt_values };
                    let q = Params { corrupt_lens: lens, corrupt_values: vals, ..Params { large: vec![], corrupt_lens: vec![], ..p } };
                    families::corrupt(&mut e, m, g, &q)
                }
                "short" => families::short(&mut e, m, g, &p),
                "fill" => families::fill(&mut e, m, g, &p),
                "random" => families::random(&mut e, m, g, &p),
                "large" => families::large(&mut e, m, g, &p),
                "edges" => families::edges(&mut e, m, g, &p),
                "units" => families::units(&mut e, m, g, &p),
                "cover" => families::cover(&mut e, m, g, &p),
                "place" => {
                    let q = Params { deep: 3, per_len: 1, max_len: p.max_len.min(300), large: vec![], corrupt_lens: vec![], ..p };
                    families::lengths(&mut e, m, g, &q)
                }
                "under" => {
                    let q = Params { deep: 2, per_len: 1, max_len: p.max_len.min(200), large: vec![], corrupt_lens: vec![], ..p };
                    families::lengths(&mut e, m, g, &q)
                }
                x => panic!("family {x}"),
            }
        }
    }
    let v: Vec<String> = e
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":\"{}\",\"op\":{},\"src\":{},\"dlen\":{},\"what\":{},\"expected\":{},\"got\":{}}}",
                v.kind, jstr(&v.op), jstr(&engine::hex(&v.src)), v.dlen, jstr(&v.what), jstr(&v.expected), jstr(&v.got)
            )
        })
        .collect();
    let per: Vec<String> = e.per_op.iter().map(|(k, n)| format!("{}:{}", jstr(k), n)).collect();
    let sm: Vec<String> = e.samples.iter().map(|s| jstr(s)).collect();
    format!(
        "{{\"calls\":{},\"words\":{},\"distinct\":{},\"accepted\":{},\"rejected\":{},\"short_dst\":{},\"violations\":[{}],\"per_op\":{{{}}},\"samples\":[{}]}}",
        e.calls, e.words, e.distinct.len(), e.accepted, e.rejected, e.short_dst, v.join(","), per.join(","), sm.join(",")
    )
}

/// One call, its outcome in words.  Replays a violation and compares levels, builds and forms.
fn one() -> String {
    let name = arg("--op").expect("--op");
    let src: Vec<u8> = {
        let h = arg("--src").unwrap_or_default();
        (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
    };
    let reg = ops::registry();
    let op = reg.iter().find(|o| o.name == name).expect("operation");
    let f = ops::prepare(op, &src, num("--dlen", 0));
    ops::show(f())
}

fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    let level = arg("--level").unwrap_or("native".into());
    isa_mask::set_level(&level);
    if let Some(c) = arg("--crash") {
        mem::install_handlers(&c);
    }
    // silent about the code under test (its panics are caught and reported), not about the driver
    std::panic::set_hook(Box::new(|p| {
        if p.location().is_some_and(|l| l.file().starts_with("src/")) {
            eprintln!("driver: {p}");
        }
    }));
    let r = match mode.as_str() {
        "lockstep" => {
            let spec = Spec::load(&arg("--spec").expect("--spec"));
            lockstep(&spec, &level)
        }
        #[cfg(feature = "parallel")]
        "par" => par::run(&Spec::load(&arg("--spec").expect("--spec"))),
        "history" => history::run(&Spec::load(&arg("--spec").expect("--spec"))),
        #[cfg(all(target_pointer_width = "64", target_os = "linux", not(miri)))]
        "giant" => giant::run(&Spec::load(&arg("--spec").expect("--spec"))),
        "nothing" => "mode nothing".into(),
        "one" => one(),
        "cases" => cases::generate(&Spec::load(&arg("--spec").expect("--spec"))),
        "replay" => cases::replay(),
        #[cfg(all(vsimd_verif, not(miri)))]
        "race" => race::run(),
        "race-miri" => race::miri(),
        #[cfg(all(vsimd_verif, target_arch = "x86_64", not(miri)))]
        "isa" => isamode::run(&Spec::load(&arg("--spec").expect("--spec")), &level),
        "show" => show::run(&level),
        "facts" => facts::run(&Spec::load(&arg("--spec").expect("--spec"))),
        x => panic!("mode {x}"),
    };
    if let Some(o) = arg("--out") {
        let mut f = std::fs::File::create(o).unwrap();
        f.write_all(r.as_bytes()).unwrap();
    } else {
        println!("{r}");
    }
}
