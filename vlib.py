"""Common machinery of the checks: building the driver, running TLC, running the driver,
collecting deviations, writing evidence and replay files.

Exit codes: 0 property held, 1 violation (with a VIOLATION line), 2 error of the check itself.
"""
import concurrent.futures as cf
import contextlib, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
STABLE, NIGHTLY, MIRI = "stable-x86_64-unknown-linux-gnu", "nightly-2025-06-20", "nightly-x86_64-unknown-linux-gnu"
NEON = "aarch64-unknown-linux-gnu"
HOOK = "--cfg vsimd_verif"
LEVELS = ["fallback", "sse2", "ssse3", "sse4.1", "avx2"]


class ToolError(Exception):
    pass


def cpu_levels():
    try:
        flags = set(re.search(r"^flags\s*:\s*(.*)$", open("/proc/cpuinfo").read(), re.M).group(1).split())
    except Exception:
        flags = set()
    need = {"sse2": "sse2", "ssse3": "ssse3", "sse4.1": "sse4_1", "avx2": "avx2"}
    return ["fallback"] + [l for l in LEVELS[1:] if need[l] in flags]


def available_gb():
    try:
        return int(re.search(r"^MemAvailable:\s*(\d+)", open("/proc/meminfo").read(), re.M).group(1)) >> 20
    except Exception:
        return 0


class Check:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.quick = tier == "quick"
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.viol = []
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = 0
        self.cov = {}
        self.samples = []
        self.pool = cf.ThreadPoolExecutor(16)
        self._builds = {}
        self.assumptions = []
        self.turns = threading.Semaphore(2)

    # ---- bookkeeping -----------------------------------------------------------------
    def note(self, **kw):
        with self.lock:
            for k, v in kw.items():
                if isinstance(v, (int, float)) and not isinstance(v, bool) and k in self.cov:
                    self.cov[k] += v
                elif isinstance(v, list) and k in self.cov:
                    self.cov[k] += v
                else:
                    self.cov[k] = v

    def violation(self, **v):
        with self.lock:
            self.viol.append(v)

    def path(self, name):
        return os.path.join(self.tmp, name)

    # ---- building --------------------------------------------------------------------
    def build(self, name="release", crate="harness", toolchain=STABLE, profile="release", rustflags=HOOK,
              features=None, default_features=True, target=None, extra_env=None, binary="conform"):
        """Build the driver from /repo's working tree; returns the path of the binary."""
        with self.lock:
            if name not in self._builds:
                self._builds[name] = self.pool.submit(self._build, name, crate, toolchain, profile, rustflags,
                                                      features, default_features, target, extra_env, binary)
        return self._builds[name].result()

    def _build(self, name, crate, toolchain, profile, rustflags, features, default_features, target, extra_env, binary, more=()):
        env = clean_env()
        env["RUSTFLAGS"] = rustflags
        env["RUSTUP_TOOLCHAIN"] = toolchain
        tdir = os.path.join(BUILD, name)
        cmd = ["cargo", "build", "--offline", "--locked", "--profile", profile, "--target-dir", tdir]
        cmd += list(more)
        if features:
            cmd += ["--features", ",".join(features)]
        if not default_features:
            cmd += ["--no-default-features"]
        if target:
            cmd += ["--target", target]
        env.update(extra_env or {})
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, crate), env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError(f"build {name} failed:\n{r.stderr[-3000:]}")
        d = {"dev": "debug"}.get(profile, profile)
        return os.path.join(tdir, target, d, binary) if target else os.path.join(tdir, d, binary)

    def build_i686(self, name="i686", rustflags=HOOK, profile="release", target="i686-unknown-linux-gnu", crate="harness", binary="conform", more=()):
        """32-bit driver: the standard library from rust-src, the 32-bit C library of the system.
        Returns None where such programs cannot be linked or run."""
        with self.lock:
            if name not in self._builds:
                self._builds[name] = self.pool.submit(self._build_i686, name, rustflags, profile, target, crate, binary, more)
        return self._builds[name].result()

    def _build_i686(self, name, rustflags, profile, target, crate, binary, more):
        d = os.path.join(BUILD, name + "-link")
        os.makedirs(d, exist_ok=True)
        lib = "/usr/lib32"
        try:
            for so, ln in [("libc.so.6", "c"), ("libm.so.6", "m"), ("libgcc_s.so.1", "gcc_s")] + [("libc.so.6", x) for x in ("rt", "util", "pthread", "dl")]:
                if not os.path.exists(os.path.join(lib, so)):
                    return None
                t = os.path.join(d, f"lib{ln}.so")
                if not os.path.lexists(t):
                    os.symlink(os.path.join(lib, so), t)
            open(os.path.join(d, "start.s"), "w").write(
                ".globl _start\n_start:\n xor %ebp,%ebp\n pop %esi\n mov %esp,%ecx\n and $0xfffffff0,%esp\n push %eax\n push %esp\n push %edx\n"
                " push $0\n push $0\n push %ecx\n push %esi\n push $main\n call __libc_start_main\n hlt\n.section .note.GNU-stack,\"\",@progbits\n")
            subprocess.run(["clang", "-m32", "-c", "start.s", "-o", "start.o"], cwd=d, check=True, capture_output=True)
        except (OSError, subprocess.CalledProcessError):
            return None
        fl = (f"{rustflags} -C linker=clang -C link-self-contained=no -C relocation-model=static -C link-arg=-m32 -C link-arg=-nostdlib "
              f"-C link-arg=-nostartfiles -C link-arg={d}/start.o -C link-arg=-L{d} -C link-arg=-Wl,-dynamic-linker,{lib}/ld-linux.so.2 "
              f"-C link-arg=-Wl,-rpath,{lib}")
        b = self._build(name, crate, MIRI, profile, fl, None, True, target, None, binary, ["-Zbuild-std=std,panic_unwind", *more])
        try:
            ok = subprocess.run([b, "nothing"], capture_output=True, text=True, timeout=30).returncode == 0
        except OSError:
            ok = False
        return b if ok else None

    def build_wasm(self, name, rustflags, crate="wasm", lib="conformwasm", more=()):
        """The operations as a WebAssembly module (standard library from rust-src and its vendored crates)."""
        with self.lock:
            if name not in self._builds:
                self._builds[name] = self.pool.submit(self._build_wasm, name, rustflags, crate, lib, more)
        return self._builds[name].result()

    def _build_wasm(self, name, rustflags, crate, libname, more):
        vend = os.path.join(BUILD, name + "-vendor")
        shutil.rmtree(vend, ignore_errors=True)
        os.makedirs(vend)
        sysroot = subprocess.run(["rustc", "+" + MIRI, "--print", "sysroot"], env=clean_env(), capture_output=True, text=True).stdout.strip()
        lib = os.path.join(sysroot, "lib/rustlib/src/rust/library/vendor")
        for d in os.listdir(lib):
            os.symlink(os.path.join(lib, d), os.path.join(vend, d))
        lock = open(os.path.join(VERIF, crate, "Cargo.lock")).read()
        home = os.environ.get("CARGO_HOME", os.path.join(os.environ.get("HOME", "/root"), ".cargo"))
        for m in re.finditer(r'name = "(\S+)"\nversion = "(\S+)"\nsource = .*\nchecksum = "(\w+)"', lock):
            nv = f"{m.group(1)}-{m.group(2)}"
            dst = os.path.join(vend, nv)
            for reg in glob.glob(os.path.join(home, "registry/src/*")):
                src = os.path.join(reg, nv)
                if os.path.isdir(src) and not os.path.exists(dst):
                    shutil.copytree(src, dst)
                    open(os.path.join(dst, ".cargo-checksum.json"), "w").write(json.dumps(dict(files={}, package=m.group(3))))
        self._build(name, crate, MIRI, "release", rustflags, None, True, "wasm32-unknown-unknown", None, "",
                    ["-Zbuild-std=std,panic_abort", "--config", 'source.crates-io.replace-with="v"', "--config", f"source.v.directory='{vend}'", *more])
        return os.path.join(BUILD, name, f"wasm32-unknown-unknown/release/{libname}.wasm")

    # ---- TLC -------------------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=2, args=(), timeout=900, expect=True, heap="4g"):
        """Run TLC on spec/<module>.  Returns (ok, output, distinct states, states generated)."""
        e = clean_env()
        e.update(env or {})
        meta = tempfile.mkdtemp(dir=self.tmp)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp",
               "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
               "-metadir", meta, "-workers", str(workers), "-config", (cfg or module) + ".cfg", *args, module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC {module} timed out")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout + r.stderr
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        ok = r.returncode == 0 and "Error:" not in out
        if expect and not ok:
            raise ToolError(f"TLC {module}: specification check failed\n{out[-3000:]}")
        with self.lock:
            self.states += dist
            self.transitions += gen
        return ok, out, dist, gen

    def apalache(self, module, inv, init="Init", nxt="Next", length=0, timeout=300):
        out = tempfile.mkdtemp(dir=self.tmp)
        e = clean_env()
        r = subprocess.run(["apalache-mc", "check", f"--init={init}", f"--next={nxt}", f"--inv={inv}",
                            f"--length={length}", f"--out-dir={out}", module + ".tla"], cwd=SPEC, env=e,
                           capture_output=True, text=True, timeout=timeout)
        if r.returncode != 0 or "The outcome is: NoError" not in r.stdout:
            raise ToolError(f"Apalache {module}: {r.stdout[-2000:]}{r.stderr[-500:]}")
        return r.stdout.count("holds.")

    # ---- the specification as tables -------------------------------------------------
    def req(self, machines, **more):
        p = self.path("req-" + hashlib.sha1(repr((machines, more)).encode()).hexdigest()[:10] + ".json")
        with open(p, "w") as f:
            json.dump(dict(machines=sorted(machines), scale=0 if self.quick else 1, **more), f)
        return p

    def tables(self, machines):
        """TLC writes operation facts, codec facts and the transition tables of the machines."""
        out = self.path("tables.ndjson")
        self.tlc("Tables", env={"REQ": self.req(machines), "OUT": out}, workers=1)
        txt = self.path("tables.txt")
        n, cells = 0, 0
        with open(txt, "w") as o:
            for line in open(out):
                r = json.loads(line)
                if r["rec"] == "op":
                    o.write(f"op {r['id']} {r['m']} {r['form']} {r['pol']} {r['unit']}\n")
                elif r["rec"] == "codec":
                    o.write(f"codec {r['id']} {r['q']} {r['qb']} {len(r['alpha'])} {' '.join(map(str, r['alpha'] + r['lens']))}\n")
                elif r["rec"] == "perm":
                    o.write(f"perm {r['id']} {' '.join(map(str, r['perm']))}\n")
                else:
                    n += 1
                    cells += 256 * r["n"]
                    o.write(f"machine {r['id']} {r['n']}\n")
                    for row in r["rows"]:
                        o.write(" ".join(",".join(map(str, c)) for c in row) + "\n")
                    o.write(" ".join(",".join(map(str, c)) for c in r["fin"]) + "\n")
        self.note(machines_tabulated=n, table_transitions=cells)
        return txt

    def laws(self, machines):
        """Model checking of the specification itself, for the machines of this check."""
        rq = self.req(machines)
        fs = [self.pool.submit(self.tlc, "MC_MachineLaws", env={"REQ": rq}, workers=2),
              self.pool.submit(self.tlc, "MC_MachineEquiv", env={"REQ": rq}, workers=2)]
        return fs

    # ---- the driver ------------------------------------------------------------------
    def run_driver(self, binary, args, label, timeout=840, env=None, context=None, kinds=None):
        """Run one driver process.  Deviations it reports, crashes and hangs become violations."""
        out, crash = self.path(f"out-{label}.json"), self.path(f"crash-{label}")
        e = clean_env()
        e.update(env or {})
        cmd = [binary, *args, "--out", out, "--crash", crash, "--seed", str(self.seed)]
        try:
            r = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"driver {label} timed out: {' '.join(cmd)}")
        ctx = dict(where=label, **(context or {}))
        if r.returncode in (77, 78):
            t = open(crash).read().split("\n")
            kind, op, slen, dlen, src = (t + [""] * 5)[:5]
            self.violation(kind="crash", op=op, src=src, src_len=int(slen or 0), dlen=int(dlen or 0), what=kind,
                           expected="the call returns", got=kind, **ctx)
            return None
        if r.returncode != 0:
            if r.returncode == -9 or "driver:" in r.stderr or r.returncode == 101:
                raise ToolError(f"driver {label} exited {r.returncode}: {r.stderr[-1500:]}")
            self.violation(kind="crash", op="?", src="", dlen=0, what=f"process ended with {r.returncode}",
                           expected="the calls return", got=r.stderr[-500:], **ctx)
            return None
        res = json.load(open(out))
        for v in res.get("violations", []):
            if not kinds or v["kind"] in kinds:
                self.violation(**v, **ctx)
        return res

    def giant(self, tables, ops, levels=("native", "fallback"), least=1 << 32, tails=1, builds=None, kinds=("result", "short")):
        """Sources of more than 4 GiB (one block mapped again and again).  Operations that work on
        memory of their own take turns: they need up to 11 GB each."""
        heavy = [o for o in ops if not o.split(".")[1] in ("encode", "encode_as_str", "decode", "check", "decoded_length", "encode_raw", "decode_raw",
                                                           "check_raw", "is_ascii", "is_utf32le", "swap16", "swap32") or o.startswith("forgiving")]
        light = [o for o in ops if o not in heavy]
        self.giants = getattr(self, "giants", 0) + 1
        tag = f"giant-{self.giants}"

        def go(label, binary, lv, part, o):
            f = self.ops_file(o, f"ops-{tag}-{label}-{lv}-{part}.txt")
            binary = binary()
            with self.turns if part == "own" else contextlib.nullcontext():
                if part == "own" and available_gb() < 14:
                    return dict(calls=0, skipped=o)
                return self.run_driver(binary, ["giant", "--spec", tables, "--ops", f, "--level", lv, "--tails", str(tails),
                                                "--least", str(1 << 32 if part == "own" else least)],
                                       f"{tag}-{label}-{lv}-{part}", 840, None, dict(build=label, level=lv), kinds)
        builds = builds or [("release", lambda: self.build())]
        fs = []
        for label, binary in builds:
            for lv in levels:
                fs += [self.pool.submit(go, label, binary, lv, p, light[p::4]) for p in range(min(4, len(light)))]
        for label, binary in builds:
            fs += [self.pool.submit(go, label, binary, lv, "own", heavy) for lv in levels if heavy]

        def done():
            for f in fs:
                r = f.result()
                if r:
                    with self.lock:
                        self.traces += r["calls"]
                    self.note(calls_on_more_than_4_GiB=r["calls"])
                    if r["skipped"]:
                        self.note(giant_sources_not_possible_here=r["skipped"])
        return done

    # ---- lane primitives --------------------------------------------------------------
    def lane_tables(self):
        """TLC writes the catalogue of primitives and their byte-level tables; converted for the driver."""
        out, txt = self.path("lanes.ndjson"), self.path("lanes.txt")
        self.tlc("LaneTables", env={"OUT": out}, workers=1)
        n = 0
        with open(txt, "w") as o:
            for line in open(out):
                r = json.loads(line)
                if r["t"] == "op":
                    n += 1
                    j = lambda a: ",".join(map(str, a)) or "-"
                    o.write(f"op {r['name']} {r['kind']} {r['min']} {int(r['wasm'])}{int(r['neon'])} {r['dom']} {r['f']} {r['n']} {j(r['args'])} {j(r['p'])}\n")
                elif r["t"] == "fin":
                    o.write(f"fin {r['f']} {r['m']} {' '.join(r['v'])}\n")
                else:
                    o.write(f"tab {r['t']} {r['f']} {' '.join(map(str, r['v']))}\n")
        return txt, n

    def lanes(self, binary, text, label, scale, per, part, parts, timeout=840, miri=None):
        """Run the primitives of one build against the tables; returns (summary, file of events)."""
        tag = f"{label}-{part}"
        tr, out, crash = self.path(f"lane-{tag}.ndjson"), self.path(f"laneout-{tag}.json"), self.path(f"lanecrash-{tag}")
        for p in (tr, out):
            if os.path.exists(p):
                os.unlink(p)
        if binary.endswith(".wasm"):
            cmd = ["node", os.path.join(VERIF, "lanes/run.js"), binary, text, out, tr, crash, *map(str, (scale, self.seed, per, part, parts))]
        else:
            cmd = [binary, "--spec", text, "--scale", str(scale), "--seed", str(self.seed), "--per", str(per), "--part", str(part), "--parts", str(parts),
                   "--trace", tr, "--out", out, "--crash", crash]
        try:
            r = subprocess.run(cmd, env=clean_env(), capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"lanes {tag} timed out")
        if r.returncode in (77, 78) and os.path.exists(crash):
            t = open(crash).read().split("\n")
            if "driver:" in "\n".join(t[1:]):
                raise ToolError(f"lanes {tag}: {t[1:]}")
            op, isa, src = (t[0].split(" ") + ["", "", ""])[:3]
            self.violation(kind="crash", op=op, src=src, dlen=0, isa=isa, what=f"crash on {isa}: " + " ".join(t[1:])[:300], expected="the call returns",
                           got=f"exit {r.returncode}", where=label, build=label, level=isa)
            return None, None
        if r.returncode:
            raise ToolError(f"lanes {tag} exited {r.returncode}: {r.stderr[-1500:]}")
        res = json.load(open(out))
        for v in res["violations"]:
            self.violation(**v, where=label, build=label, level=v["isa"])
        with self.lock:
            self.traces += res["calls"]
        return res, tr

    # ---- Miri ------------------------------------------------------------------------
    def miri_setup(self, target="x86_64-unknown-linux-gnu", crate="harness"):
        """Interpreter sysroot for one target (TRIPLE or TRIPLE+FEATURE; built offline from rust-src, once per tree) and one driver compiled for it."""
        for k, t, f, a in (("miri", target.split("+")[0], self._miri_setup, (target.split("+")[0],)), ("miri " + crate, target, self._miri_driver, (target, crate))):
            with self.lock:
                if (k, t) not in self._builds:
                    self._builds[k, t] = self.pool.submit(f, *a)
            r = self._builds[k, t].result()
        return r

    def _miri_env(self, target, flags):
        e = clean_env()
        # one cache per target: concurrent set-ups of one cache directory disturb each other
        triple, *feat = target.split("+")
        e.update(RUSTUP_TOOLCHAIN=MIRI, XDG_CACHE_HOME=os.path.join(BUILD, "miri-cache-" + triple), RUSTFLAGS=HOOK + "".join(" -C target-feature=+" + f for f in feat),
                 MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks " + flags)
        if target == NEON:
            e["MIRI_LIB_SRC"] = os.path.join(BUILD, "neon", "library")
        return e

    def _miri_setup(self, target):
        if target == NEON:
            neon_library()
        e = self._miri_env(target, "")
        e.pop("RUSTFLAGS")
        e.pop("MIRIFLAGS")
        r = subprocess.run(["cargo", "miri", "setup", "--target", target], cwd=HARNESS, env=e, capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise ToolError(f"cargo miri setup {target}: {r.stderr[-1500:]}")

    def _miri_driver(self, target, crate):
        # compile the driver once, so that parallel runs find it built
        r = self._miri_cmd(target, "", ["nothing"], 600, crate=crate)
        if "mode nothing" not in r.stdout + r.stderr:
            raise ToolError(f"cargo miri {target}: {r.stderr[-3000:]}")
        return True

    def _miri_cmd(self, target, flags, args, timeout, rustflags=None, crate="harness"):
        e = self._miri_env(target, flags)
        if rustflags:
            e["RUSTFLAGS"] = rustflags
        more = ["--bin", "lanes"] if crate == "lanes" else []
        return subprocess.run(["cargo", "miri", "run", "--offline", "--locked", *more, "--target", target.split("+")[0], "--target-dir",
                               os.path.join(BUILD, ("miri-" if crate == "harness" else f"miri-{crate}-") + target), "--", *args],
                              cwd=os.path.join(VERIF, crate), env=e, capture_output=True, text=True, timeout=timeout)

    def miri(self, target, args, label, flags="", timeout=800, out=None, crate="harness"):
        """Run the driver under Miri.  Undefined behaviour, races and mismatches become violations."""
        self.miri_setup(target, crate)
        try:
            r = self._miri_cmd(target, flags, args, timeout, crate=crate)
        except subprocess.TimeoutExpired:
            raise ToolError(f"Miri {label} timed out")
        txt = r.stdout + r.stderr
        m = re.search(r"error: (Undefined Behavior: .*|abnormal termination.*|.*memory leaked.*|the evaluated program .*|.*[dD]ata race.*)", txt)
        last = (re.findall(r"^CASE (\S+) (\d+) (\S+)", txt, re.M) or [("?", "0", "")])[-1]
        if m:
            loc = re.search(r"--> (\S+)", txt[m.start():])
            self.violation(kind="miri", op=last[0], src=last[2], dlen=int(last[1]), what=m.group(1)[:400], expected="no undefined behaviour",
                           got=(loc.group(1) if loc else "") + " " + txt[m.start():m.start() + 1500], where=label)
            return None
        if "RACE-MISMATCH" in txt:
            self.violation(kind="race", op="?", src="", dlen=0, what="a call returned another result than sequential code",
                           expected="the sequential result", got=re.search("RACE-MISMATCH.*", txt).group(0)[:600], where=label)
            return None
        if r.returncode != 0:
            raise ToolError(f"Miri {label} exited {r.returncode} in {last[0]}: {(re.findall(r"^error.*", txt, re.M) or [""])[0]} {txt[-3000:]}")
        if out:
            res = json.load(open(out))
            for v in res.get("violations", []):
                self.violation(**v, where=label)
            return res
        return txt

    def lanes_elsewhere(self, binary, text, label, target, isa, part, parts, thin):
        """Vectors collected natively, executed under Miri for another architecture, results judged natively."""
        v = self.path(f"vec-{label}-{part}")
        tr, out = self.path(f"lane-{label}-{part}.ndjson"), self.path(f"laneout-{label}-{part}.json")
        common = [binary, "--spec", text, "--scale", "0", "--seed", str(self.seed), "--per", "1", "--part", str(part), "--parts", str(parts), "--vectors", v,
                  "--thin", str(thin)]

        def native(*more):
            r = subprocess.run([*common, *more], env=clean_env(), capture_output=True, text=True, timeout=300)
            if r.returncode:
                raise ToolError(f"lanes {label} exited {r.returncode}: {r.stderr[-1500:]}")
        native()
        if not self.miri(target, ["exec", "--vectors", v], label, flags="-Zmiri-disable-stacked-borrows", crate="lanes"):
            return None, None
        native("--elsewhere", isa, "--trace", tr, "--out", out)
        res = json.load(open(out))
        for x in res["violations"]:
            self.violation(**x, where=label, build=label, level=isa)
        with self.lock:
            self.traces += res["calls"]
        return res, tr

    def cases(self, tables, ops, lens, per, name="cases", seed=None):
        """Calls with the outcome the specification gives them, written by the release build."""
        p = self.path(name + ".txt")
        of = self.ops_file(ops, f"ops-{name}.txt")
        r = subprocess.run([self.build(), "cases", "--spec", tables, "--ops", of, "--lens", ",".join(map(str, lens)), "--per", str(per),
                            "--cases", p, "--seed", str(seed or self.seed)], env=clean_env(), capture_output=True, text=True, timeout=300)
        if r.returncode != 0:
            raise ToolError(f"cases: {r.stderr[-1000:]}")
        return p

    def replay(self, binary, cases, label, level="native", every=1, miri=None, part=0, parts=1, timeout=800):
        """Run a cases file in one build; returns the file of observations."""
        t = self.path(f"obs-{label}-{part}.ndjson")
        a = ["replay", "--cases", cases, "--trace", t, "--label", label, "--every", str(every), "--part", str(part), "--parts", str(parts), "--level", level]
        if miri:
            r = self.miri(miri, a + ["--progress", "--out", self.path(f"out-{label}-{part}.json")], label, timeout=timeout, out=self.path(f"out-{label}-{part}.json"))
        elif binary.endswith(".wasm"):
            o = self.path(f"out-{label}.json")
            p = subprocess.run(["node", os.path.join(VERIF, "wasm/run.js"), binary, cases, o, t, label, str(every)], env=clean_env(),
                               capture_output=True, text=True, timeout=timeout)
            if p.returncode:
                raise ToolError(f"node {label}: {p.stderr[-1500:]}")
            r = json.load(open(o))
            for v in r["violations"]:
                self.violation(**v, where=label, build=label, level="-")
        else:
            r = self.run_driver(binary, a, label, timeout, None, dict(build=label, level=level))
        if r:
            with self.lock:
                self.traces += r["calls"]
            self.note(runs=[f"{label}: {r['calls']} calls replayed"])
        return t if os.path.exists(t) else None

    def one(self, binary, level, op, src, dlen):
        """Outcome of one call as text."""
        crash = tempfile.mktemp(dir=self.tmp)
        r = subprocess.run([binary, "one", "--level", level, "--op", op, "--src", src, "--dlen", str(dlen), "--crash", crash],
                           env=clean_env(), capture_output=True, text=True, timeout=120)
        if r.returncode == 0:
            return r.stdout.strip()
        return f"crash {r.returncode}"

    def ops_file(self, ops, name="ops.txt"):
        p = self.path(name)
        open(p, "w").write("\n".join(ops))
        return p

    def lockstep(self, tables, ops, families, levels=None, scale=None, builds=None, deep=1, kinds=None, record=None,
                 verdict_only=False, confirm=None, limit=None, timeout=840, tag=""):
        """Run the real code against the tables, one process per (build, level)."""
        of = self.ops_file(ops, f"ops{tag}.txt")
        jobs = []
        scale = scale or ("quick" if self.quick else "thorough")
        if builds is None:
            builds = [("release", lambda: self.build(), levels or cpu_levels(), scale)]
        for bname, bfun, blevels, bscale in builds:
            binary = bfun()
            for lv in blevels:
                args = ["lockstep", "--spec", tables, "--ops", of, "--level", lv, "--families", ",".join(families),
                        "--scale", bscale, "--deep", str(deep)]
                if kinds:
                    args += ["--kinds", ",".join(kinds)]
                if verdict_only:
                    args += ["--verdict-only"]
                if confirm:
                    args += ["--confirm", confirm]
                if limit:
                    args += ["--limit", str(limit)]
                rec = None
                if record and bname == builds[0][0]:
                    rec = self.path(f"trace{tag}-{lv}.ndjson")
                    args += ["--record", rec, "--rec-limit", str(record), "--rec-every", "37"]
                jobs.append((self.pool.submit(self.run_driver, binary, args, f"{bname}-{lv}{tag}", timeout,
                                              None, dict(build=bname, level=lv)), rec, f"{bname}/{lv}"))
        recs = []
        per_op = {}
        for fut, rec, label in jobs:
            r = fut.result()
            if r is None:
                continue
            with self.lock:
                self.traces += r["calls"]
            self.note(words=r["words"], distinct_words=r["distinct"], accepted_calls=r.get("accepted", 0),
                      rejected_calls=r.get("rejected", 0), short_destination_calls=r.get("short_dst", 0))
            self.note(runs=[f"{label}{tag}: {r['calls']} calls, {r['words']} words"])
            for k, n in r.get("per_op", {}).items():
                per_op[k] = per_op.get(k, 0) + n
            with self.lock:
                self.samples += [f"{label}: {s}" for s in r.get("samples", [])[:1]]
            if rec:
                recs.append(rec)
        missing = [o for o in ops if not per_op.get(o)]
        if missing and not self.viol:
            raise ToolError(f"operations never exercised: {missing}")
        self.note(operations=len(per_op))
        return recs

    def validate(self, recs, module="Trace", context="recorded trace"):
        """Validate recorded events with TLC; a rejected event is a violation."""
        lines = []
        for r in recs:
            lv = os.path.basename(r)
            lines += [(lv, l) for l in open(r)]
        total = len(lines)
        # a rejected event hides the rest: report it, drop it, go on (at most three times)
        for _ in range(3):
            if not lines:
                break
            p = tempfile.mktemp(prefix=module + "-", suffix=".ndjson", dir=self.tmp)
            open(p, "w").write("".join(l for _, l in lines))
            ok, out, dist, gen = self.tlc(module, env={"TRACE": p}, workers=1, expect=False)
            if ok:
                self.note(trace_events_validated_by_tlc=len(lines))
                return total
            m = re.search(r'<<\s*"REJECTED",\s*(\d+)', out)
            if not m:
                raise ToolError(f"TLC {module} failed:\n{out[-3000:]}")
            k = int(m.group(1)) - 1
            lv, l = lines[k]
            ev = json.loads(l)
            self.violation(kind="trace", op=ev.get("op", "?"), src=bytes(ev.get("src", [])).hex(), dlen=ev.get("dlen", 0),
                           what=f"{context}: event not allowed by the specification", expected="an event of spec/" + module + ".tla",
                           got=l.strip()[:2000], where=lv)
            lines = lines[k + 1:]
        return total

    # ---- the end ---------------------------------------------------------------------
    def finish(self, extra=None):
        known = load_known()
        new, seen = [], set()
        for v in self.viol:
            key = finding_key(self.id, v)
            if key in known:
                if key not in seen:
                    print(f"KNOWN-FINDING: property={self.id} {known[key]}")
                    seen.add(key)
            else:
                new.append(v)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples[:12] or ["-"])
        cov.update(self.cov)
        cov.update(extra or {})
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        if new:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, f"{self.id}.json")
            for v in new:
                v["key"] = finding_key(self.id, v)
            with open(p, "w") as f:
                json.dump(dict(property=self.id, tier=self.tier, seed=self.seed, violations=new[:40]), f, indent=1)
            v = new[0]
            print(f"{len(new)} deviation(s); first: {v.get('op')} at {v.get('where')}: {v.get('what')}; src={str(v.get('src'))[:200]}"
                  f" dlen={v.get('dlen')}\n  expected {str(v.get('expected'))[:300]}\n  got      {str(v.get('got'))[:300]}")
            print(f"VIOLATION property={self.id} replay={p}")
            return 1
        print(f"{self.id} held: {self.traces} calls, {self.states} model states, {round(time.time()-self.t0,1)} s")
        return 0


def neon_library():
    """A copy of the toolchain's standard library in which two NEON intrinsics that Miri does not know
    (a 32-byte store, a rounding halving addition) are written in portable code.  Everything else of
    the NEON back end Miri executes from the standard library as it is."""
    sysroot = subprocess.run(["rustc", "+" + MIRI, "--print", "sysroot"], env=clean_env(), capture_output=True, text=True).stdout.strip()
    dst = os.path.join(BUILD, "neon", "library")
    rel = "stdarch/crates/core_arch/src/arm_shared/neon/generated.rs"
    if os.path.exists(os.path.join(BUILD, "neon", "done")):
        return
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    shutil.copytree(os.path.join(sysroot, "lib/rustlib/src/rust/library"), dst, symlinks=True)
    s = open(os.path.join(dst, rel)).read()
    for name, link, body in (
            ("vst1q_s8_x2", "llvm.aarch64.neon.st1x2.v16i8", "    crate::ptr::write_unaligned(a as *mut int8x16x2_t, b);"),
            ("vrhaddq_u8", "llvm.aarch64.neon.urhadd.v16i8",
             "    unsafe {\n        let (a, b): ([u8; 16], [u8; 16]) = (transmute(a), transmute(b));\n        let mut c = [0u8; 16];\n"
             "        let mut i = 0;\n        while i < 16 {\n            c[i] = ((a[i] as u16 + b[i] as u16 + 1) >> 1) as u8;\n"
             "            i += 1;\n        }\n        transmute(c)\n    }")):
        s, n = re.subn(r"(pub (?:unsafe )?fn " + name + r"\([^{]*\{\n)((?:(?!\n\}\n).)*?" + re.escape(link) + r"(?:(?!\n\}\n).)*)\n\}\n",
                       lambda m: m.group(1) + body + "\n}\n", s, flags=re.S)
        if n != 1:
            raise ToolError(f"{rel}: {name} found {n} times")
    open(os.path.join(dst, rel), "w").write(s)
    open(os.path.join(BUILD, "neon", "done"), "w").close()


def clean_env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("CARGO_", "RUST", "MIRI", "JAVA_TOOL", "JDK_JAVA", "_JAVA"))}
    e["HOME"] = os.environ.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTUP_AUTO_INSTALL"] = "0"
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    return e


def finding_key(pid, v):
    """Identity of one deviation: property, operation, input, destination length, build and level."""
    s = json.dumps([pid, v.get("op"), v.get("src"), v.get("dlen"), v.get("build"), v.get("level"), v.get("history")])
    return hashlib.sha256(s.encode()).hexdigest()[:16]


def load_known():
    """known-findings.txt: 'finding: property=<id> key=<key> <what fails>' (see finding_key)."""
    d = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                d[m.group(2)] = m.group(3).strip()
    return d
