//! The display adapters of UUIDs under every formatting parameter, and into sinks that refuse.

use crate::rng::Rng;
use crate::{arg, num};
use std::fmt::{self, Write};
use uuid_simd::UuidExt;

/// Takes `room` bytes and refuses what goes beyond.
struct Sink {
    got: String,
    room: usize,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.got.len() + s.len() > self.room {
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

macro_rules! put {
    ($o:expr, $a:expr, $al:expr, $fill:expr, $w:expr, $p:expr, $k:literal) => {
        put!(@ $o, $a, $al, $fill, $w, $p, $k, [
            ("", ' ', ""), ("<", ' ', "<"), ("^", ' ', "^"), (">", ' ', ">"),
            ("<", '*', "*<"), ("^", '-', "-^"), (">", '0', "0>"),
            ("0", ' ', "0"), ("+", ' ', "+"), ("#", ' ', "#"), ("+#0", ' ', "+#0")
        ])
    };
    (@ $o:expr, $a:expr, $al:expr, $fill:expr, $w:expr, $p:expr, $k:literal, [$(($x:literal, $f:literal, $s:literal)),*]) => {
        match ($al, $fill, $w, $p) {
            $(
                ($x, $f, Some(w), Some(p)) => write!($o, concat!("{:", $s, "1$.2$", $k, "}"), $a, w, p),
                ($x, $f, Some(w), None) => write!($o, concat!("{:", $s, "1$", $k, "}"), $a, w),
                ($x, $f, None, Some(p)) => write!($o, concat!("{:", $s, ".1$", $k, "}"), $a, p),
                ($x, $f, None, None) => write!($o, concat!("{:", $s, $k, "}"), $a),
            )*
            _ => unreachable!(),
        }
    };
}

pub fn run(level: &str) -> String {
    let mut rng = Rng::new(num("--seed", 1) as u64);
    let aligns = [("", ' '), ("<", ' '), ("^", ' '), (">", ' '), ("<", '*'), ("^", '-'), (">", '0'), ("0", ' '), ("+", ' '), ("#", ' '), ("+#0", ' ')];
    let mut out = String::new();
    let mut events = 0u64;
    for round in 0..num("--rounds", 600) {
        let mut b = [0u8; 16];
        b.iter_mut().for_each(|x| *x = rng.next() as u8);
        if round % 8 == 0 {
            b = [[0u8; 16], [0xff; 16], [0xa5; 16]][round / 8 % 3];
        }
        let u = uuid::Uuid::from_bytes(b);
        for form in ["simple", "hyphen"] {
            for kind in ["d", "x", "X"] {
                let (al, fill) = aligns[rng.below(aligns.len() as u64) as usize];
                let w = (rng.below(4) != 0).then(|| rng.below(60) as usize);
                let p = (rng.below(4) != 0).then(|| rng.below(45) as usize);
                let room = if rng.below(3) == 0 { rng.below(64) as usize } else { 1000 };
                let mut o = Sink { got: String::new(), room };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let o = &mut o;
                    match (form, kind) {
                        ("simple", "d") => put!(o, u.format_simple(), al, fill, w, p, ""),
                        ("simple", "x") => put!(o, u.format_simple(), al, fill, w, p, "x"),
                        ("simple", _) => put!(o, u.format_simple(), al, fill, w, p, "X"),
                        (_, "d") => put!(o, u.format_hyphenated(), al, fill, w, p, ""),
                        (_, "x") => put!(o, u.format_hyphenated(), al, fill, w, p, "x"),
                        (_, _) => put!(o, u.format_hyphenated(), al, fill, w, p, "X"),
                    }
                }));
                let tag = match r {
                    Err(_) => "panic",
                    Ok(Err(_)) => "err",
                    Ok(Ok(())) => "ok",
                };
                let n = |x: Option<usize>| x.map_or(-1, |x| x as i64);
                writeln!(
                    out,
                    "{{\"op\":\"uuid.show\",\"form\":\"{form}\",\"kind\":\"{kind}\",\"src\":{b:?},\"align\":\"{al}\",\"fill\":{},\"width\":{},\"prec\":{},\"room\":{room},\"tag\":\"{tag}\",\"out\":{:?}}}",
                    fill as u32, n(w), n(p), if tag == "ok" { o.got.as_bytes() } else { &[] }
                )
                .unwrap();
                events += 1;
            }
        }
    }
    std::fs::write(arg("--trace").expect("--trace"), out).unwrap();
    format!("{{\"calls\":{events},\"level\":\"{level}\",\"violations\":[]}}")
}
