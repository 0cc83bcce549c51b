mod classes;
mod drive;
mod ops;
#[cfg(target_arch = "aarch64")]
use vsimd::isa::NEON;
use vsimd::isa::{detect, AVX2, SSE2, SSE41, SSSE3};

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn num(name: &str, d: usize) -> usize {
    arg(name).map(|x| x.parse().unwrap()).unwrap_or(d)
}

extern "C" fn ill(_: i32) {
    let c = drive::current();
    let path = CRASH.get();
    if let Some(p) = path {
        let _ = std::fs::write(p, c);
    }
    std::process::exit(77)
}
static CRASH: std::sync::OnceLock<String> = std::sync::OnceLock::new();
extern "C" {
    fn signal(n: i32, f: extern "C" fn(i32)) -> usize;
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("nothing") {
        println!("mode nothing");
        return;
    }
    let have = |isa: &str| match isa {
        "sse2" => detect::<SSE2>().is_some(),
        "ssse3" => detect::<SSSE3>().is_some(),
        "sse41" => detect::<SSE41>().is_some(),
        "avx2" => detect::<AVX2>().is_some(),
        #[cfg(target_arch = "aarch64")]
        "neon" => detect::<NEON>().is_some(),
        _ => false,
    };
    let skip: Vec<String> = arg("--skip").map(|s| s.split(';').map(|x| x.to_string()).collect()).unwrap_or_default();
    if let Some(c) = arg("--crash") {
        let _ = CRASH.set(c);
        #[cfg(not(miri))]
        unsafe {
            for s in [4, 7, 8, 11] {
                signal(s, ill);
            }
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let t = i.to_string();
        if t.contains("driver:") {
            eprintln!("{t}");
            std::process::exit(101);
        }
        if let Some(p) = CRASH.get() {
            let mut c = drive::current().to_vec();
            c.extend_from_slice(b"\n");
            c.extend_from_slice(t.replace('\n', " ").as_bytes());
            let _ = std::fs::write(p, c);
        } else {
            eprintln!("{t} at {}", String::from_utf8_lossy(drive::current()));
        }
        std::process::exit(78);
    }));
    if std::env::args().nth(1).as_deref() == Some("exec") {
        return exec(&arg("--vectors").unwrap(), &have);
    }
    let text = std::fs::read_to_string(arg("--spec").expect("--spec")).unwrap();
    let plan = drive::Plan {
        scale: num("--scale", 1),
        seed: num("--seed", 1) as u64,
        per: num("--per", 2),
        part: num("--part", 0),
        parts: num("--parts", 1),
        few: arg("--vectors").is_some(),
        thin: num("--thin", 0),
        skip: &skip,
    };
    let via = match (arg("--vectors"), arg("--elsewhere")) {
        (Some(_), None) => drive::Via::Collect(Default::default()),
        (Some(f), Some(isa)) => drive::Via::Elsewhere(isa, results(&f), 0),
        _ => drive::Via::Here,
    };
    let (r, ev, vectors) = drive::run(&text, &plan, via, &have);
    if let (Some(f), None) = (arg("--vectors"), arg("--elsewhere")) {
        // index: operation, bytes per vector, bytes per result, vectors
        let idx: String = vectors.iter().map(|(h, k, _)| format!("{h} {k}\n")).collect();
        std::fs::write(format!("{f}.idx"), idx).unwrap();
        std::fs::write(format!("{f}.bin"), vectors.iter().flat_map(|(_, _, v)| v.clone()).collect::<Vec<u8>>()).unwrap();
        return;
    }
    if let Some(p) = arg("--trace") {
        std::fs::write(p, ev).unwrap();
    }
    match arg("--out") {
        Some(o) => std::fs::write(o, r).unwrap(),
        None => println!("{r}"),
    }
}

fn index(f: &str) -> Vec<(String, usize, usize, usize)> {
    std::fs::read_to_string(format!("{f}.idx"))
        .unwrap()
        .lines()
        .map(|l| {
            let w: Vec<&str> = l.split(' ').collect();
            (w[0].into(), w[1].parse().unwrap(), w[2].parse().unwrap(), w[3].parse().unwrap())
        })
        .collect()
}

/// The vectors of a file through the first implementation of this target; progress on standard output.
fn exec(f: &str, have: &dyn Fn(&str) -> bool) {
    let reg = ops::registry();
    let bin = std::fs::read(format!("{f}.bin")).unwrap();
    let (mut at, mut res) = (0, vec![]);
    for (name, a, n, k) in index(f) {
        println!("CASE {name} 0 -");
        let (isa, g) = reg.iter().find(|o| o.name == name).expect("driver: operation").f[0];
        assert!(have(isa), "driver: {isa} not available");
        let (mut x, mut y) = ([0u8; 512], [0u8; 512]);
        for _ in 0..k {
            x[..a].copy_from_slice(&bin[at..at + a]);
            unsafe { g(&x[..a], &mut y[..n]) };
            res.extend_from_slice(&y[..n]);
            at += a;
        }
    }
    std::fs::write(format!("{f}.out"), res).unwrap();
    println!("mode exec");
}

fn results(f: &str) -> std::collections::HashMap<String, Vec<u8>> {
    let out = std::fs::read(format!("{f}.out")).unwrap();
    let mut at = 0;
    index(f)
        .into_iter()
        .map(|(name, _, n, k)| {
            at += n * k;
            (name, out[at - n * k..at].to_vec())
        })
        .collect()
}
