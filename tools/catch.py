"""Run the property's check (or those named) against planted bugs; results to /tmp/catch.json.
usage: catch.py [--also Cxx,..] [ID ...]"""
import json, os, subprocess, sys, time
V = "/verif"
args = sys.argv[1:]
also = args[args.index("--also") + 1].split(",") if "--also" in args else []
ids = [a for i, a in enumerate(args) if not a.startswith("--") and (i == 0 or args[i - 1] != "--also")] or sorted(os.listdir(V + "/seeded"))
res = json.load(open("/tmp/catch.json")) if os.path.exists("/tmp/catch.json") else {}
for b in ids:
    prop = json.load(open(f"{V}/seeded/{b}/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", f"{V}/seeded/{b}/patch.diff"], check=True)
    try:
        for p in also or [prop]:
            t = time.time()
            try:
                r = subprocess.run(["python3", "check.py", p], cwd=V, env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1"), capture_output=True, text=True, timeout=900)
                rc, out = r.returncode, r.stdout
            except subprocess.TimeoutExpired as e:
                rc, out = "timeout", (e.stdout or b"").decode()
            v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            res[b + " " + p] = dict(rc=rc, violations=v[:3], own=prop == p)
            print(time.strftime("%H:%M:%S"), b, p, f"{'own ' if p == prop else ''}rc={rc} {len(v)} violations {time.time()-t:.0f}s", (v or out.splitlines()[-2:])[:1], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    json.dump(res, open("/tmp/catch.json", "w"), indent=1)
