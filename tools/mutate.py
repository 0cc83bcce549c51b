#!/usr/bin/env python3
"""Mutation campaign: small changes all over the library's source, each run through part of the
repository's tests and, if those pass, through the checks of the properties it may break.

usage: mutate.py list                     number of candidates per file
       mutate.py run SLOT SLOTS SEED N [FILE-REGEX]   N random candidates; log /tmp/mut/log-SLOT.jsonl
Runs in its own mount namespace, on copies of /repo and /verif under /tmp/mut/SLOT.
"""
import glob, json, os, random, re, subprocess, sys, time

CR = "base64-simd base32-simd hex-simd uuid-simd unicode-simd vsimd".split()
PROPS = {"base64-simd": "C02 C01 C03 C07 C19 C17 C18 C16 C08 C20 C14 C22 C15", "base32-simd": "C05 C04 C07 C19 C17 C18 C16 C08 C14 C22 C15",
         "hex-simd": "C06 C07 C19 C17 C18 C16 C08 C14 C22 C15", "uuid-simd": "C09 C10 C19 C16 C14 C22 C15",
         "unicode-simd": "C11 C12 C13 C16 C19 C14 C22 C15", "vsimd": "C21 C14 C15 C22 C16 C02 C05 C06 C11 C12 C13 C09 C10 C18 C01 C04"}
RULES = [(r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
         (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" % ", [" / "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
         (r" & ", [" | "]), (r" \| ", [" & "]), (r" \^ ", [" | "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]),
         (r" \|= ", [" &= ", " = "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bif !", ["if "]),
         (r"\b0x[0-9A-Fa-f_]+\b", ["@hex"]), (r"(?<![\w.])\d+(?![\w.x])", ["@+", "@-"]), (r"b'(.)'", ["@chr"]),
         (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"_lo\(", ["_hi("]), (r"_hi\(", ["_lo("]), (r"saturating_", ["wrapping_"]),
         (r"\.0\b", [".1"]), (r"\.1\b", [".0"]), (r"_add\(", ["_sub("]), (r"_sub\(", ["_add("]), (r"_or\(", ["_and("]), (r"_and\(", ["_or("]), (r"xor\(", ["or("]),
         (r"_lt\(", ["_eq("]), (r"\blower", ["upper"]), (r"\bLOWER", ["UPPER"]), (r"\bany\b", ["all"]), (r"_any\(", ["_all("]), (r"_all\(", ["_any("]),
         (r"SSE41", ["SSSE3", "AVX2"]), (r"SSSE3", ["SSE2", "SSE41"]), (r"AVX2", ["SSE41"]), (r"\bepi8\b", ["epu8"]), (r"epi8", ["epu8"]), (r"epu8", ["epi8"]), (r"epi16", ["epu16"]), (r"_u8\(", ["_s8("]), (r"unpacklo", ["unpackhi"]), (r"unpackhi", ["unpacklo"]),
         (r"^(\s*)ensure!\(.*\);$", [r"\1"]), (r"^(\s+)[a-z_.]+\(.*\);$", [r"\1"]), (r"^(\s+)\w+ = .*;$", [r"\1"]),
         (r"Relaxed|Acquire|Release|SeqCst|AcqRel", ["Relaxed"]), (r"\bsrc\b", ["dst"]), (r"\bdst\b", ["src"]), (r"\.len\(\)", [".len() + 1", ".len() - 1"])]


def candidates(root):
    out = []
    for c in CR:
        for f in sorted(glob.glob(f"{root}/crates/{c}/src/*.rs")):
            rel = f[len(root) + 1:]
            lines = open(f).read().split("\n")
            for i, l in enumerate(lines):
                if "#[cfg(test)]" in l or "mod test" in l:
                    break
                s = l.strip()
                if not s or s.startswith(("//", "#[", "#![", "use ", "pub use", "mod ", "pub mod", "debug_assert", "assert", "fn ", "pub fn", "pub unsafe fn", "unsafe fn", "impl", "pub trait", "type ")):
                    continue
                code = l.split(" //")[0]
                for pat, reps in RULES:
                    for m in re.finditer(pat, code):
                        for r in reps:
                            t = m.group(0)
                            if r == "@hex":
                                v = int(t.replace("_", ""), 16)
                                new = [hex(v ^ (1 << (hash((i, m.start())) % max(v.bit_length(), 1))))]
                            elif r == "@+":
                                new = [str(int(t) + 1)]
                            elif r == "@-":
                                new = [str(int(t) - 1)] if int(t) else []
                            elif r == "@chr":
                                new = [f"b'{chr(ord(m.group(1)) + 1)}'"] if m.group(1) not in "\\'" and chr(ord(m.group(1)) + 1) not in "\\'" else []
                            else:
                                new = [m.expand(r)]
                            for n in new:
                                if n != t:
                                    out.append((rel, i, code[:m.start()] + n + code[m.end():]))
    return sorted(set(out))


def sh(cmd, timeout, **kw):
    e = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS",)}
    e.update(kw.pop("env", {}))
    try:
        r = subprocess.run(["timeout", "-k", "5", str(timeout), *cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e, **kw)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""


def tests(crate):
    """Two of the nine configurations, default and everything."""
    cs = [crate] if crate != "vsimd" else CR
    ps = [x for c in cs for x in ("-p", c)]
    env = dict(CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_INCREMENTAL="1", RUSTUP_AUTO_INSTALL="0")
    for tc, a, d in (("stable-x86_64-unknown-linux-gnu", [], "s"), ("nightly-2025-06-20", ["--all-features"], "n")):
        rc, out = sh(["cargo", "test", "--offline", *ps, "--lib", "--tests", "--target-dir", "/repo/target/mut-" + d, *a], 240, cwd="/repo", env=dict(env, RUSTUP_TOOLCHAIN=tc))
        if rc:
            return "does not build" if "could not compile" in out else "killed by tests"
    return None


def inside(slot, slots, seed, n, rx):
    cs = [c for c in candidates("/repo") if re.search(rx, c[0])]
    random.Random(seed).shuffle(cs)
    cs = cs[:n][slot::slots]
    log = open(f"/tmp/mut/log-{slot}.jsonl", "a")
    for rel, i, new in cs:
        t = time.time()
        p = "/repo/" + rel
        old = open(p).read()
        ls = old.split("\n")
        rec = dict(file=rel, line=i + 1, old=ls[i].strip(), new=new.strip())
        ls[i] = new
        open(p, "w").write("\n".join(ls))
        try:
            crate = rel.split("/")[1]
            st = tests(crate)
            if st is None:
                rec["checks"] = []
                st = "SURVIVED"
                for c in PROPS[crate].split():
                    t1 = time.time()
                    rc, out = sh(["python3", "check.py", c, "quick"], 900, cwd="/verif", env=dict(VERIF_TIER="quick", VERIF_SEED="1"))
                    rec["checks"].append([c, rc, round(time.time() - t1)])
                    if rc != 0:
                        v = [l for l in out.split("\n") if l.startswith("VIOLATION")]
                        st = "caught " + c if v else f"no answer {c}: {out[-600:]}"
                        break
            rec.update(status=st, s=round(time.time() - t))
        finally:
            open(p, "w").write(old)
        log.write(json.dumps(rec) + "\n")
        log.flush()


if sys.argv[1] == "list":
    d = {}
    for c in candidates("/repo"):
        d[c[0]] = d.get(c[0], 0) + 1
    for k in sorted(d):
        print(d[k], k)
    print(sum(d.values()))
elif sys.argv[1] == "run":
    slot = sys.argv[2]
    base = f"/tmp/mut/{slot}"
    if not os.path.exists(base):
        os.makedirs(base)
        for x in ("/repo", "/verif"):
            subprocess.run(["cp", "-a", x, base + x], check=True)
    me = os.path.abspath(__file__)
    cmd = f"mount --bind {base}/repo /repo && mount --bind {base}/verif /verif && cd /verif && exec python3 {me} inside {' '.join(sys.argv[2:])}"
    sys.exit(subprocess.run(["unshare", "-m", "bash", "-c", cmd]).returncode)
else:
    a = sys.argv[2:]
    inside(int(a[0]), int(a[1]), int(a[2]), int(a[3]), a[4] if len(a) > 4 else "")
