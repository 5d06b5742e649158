#!/usr/bin/env python3
"""seedtest.py [--nocheck] [--notests] [--tier T] [--checks C01,C02] ID...   Tries planted changes in scratch copies bind-mounted
over /repo and /verif (private mount namespace): applies?, builds?, stable tests?, demo clean/patched, and which checks report it."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, threading
args = sys.argv[1:]
def opt(n, has=False):
    if n in args:
        i = args.index(n); args.pop(i)
        return args.pop(i) if has else True
    return None
nocheck, notests, checks, par, quickdemo = opt("--nocheck"), opt("--notests"), opt("--checks", 1), int(opt("--par", 1) or 2), opt("--nodemo")
V = "/verif"
ids = args or sorted(os.listdir(V + "/seeded"))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def ns(sr, sv, cmd, timeout=1500, env=None):
    sh = f"mount --bind {sr} /repo && mount --bind {sv} /verif && cd /repo && {cmd}"
    return subprocess.run(["unshare", "-Urm", "bash", "-c", sh], capture_output=True, text=True, timeout=timeout, env=dict(os.environ, VERIF_SEED="1", **(env or {})))
slots = list(range(par)); lock = threading.Lock()
def one(i):
    with lock: k = slots.pop()
    sr, sv, sd = f"/tmp/seed_r{k}", f"/tmp/seed_v{k}", f"/tmp/seed_d{k}"
    try:
        subprocess.run(["rsync", "-a", "--delete", "/repo/", sr + "/"], check=True) if shutil.which("rsync") else \
            (shutil.rmtree(sr, ignore_errors=True), subprocess.run(["cp", "-a", "/repo", sr], check=True))
        os.makedirs(sv, exist_ok=True)
        for n in os.listdir(V):
            if n in (".git", "seeded", "replays", "evidence"): continue
            d = f"{sv}/{n}"
            if n == ".build" and os.path.exists(d): continue
            shutil.rmtree(d, ignore_errors=True) if os.path.isdir(d) else None
            subprocess.run(["cp", "-a", f"{V}/{n}", d], check=True)
        shutil.rmtree(sd, ignore_errors=True); shutil.copytree(f"{V}/seeded/{i}", sd)
        meta = json.load(open(f"{sd}/meta.json"))
        r = {"id": i, "property": meta["property"]}
        if not quickdemo:
            x = ns(sr, sv, f"bash {sd}/demo.sh", 300); r["demo_clean"] = x.returncode
            if x.returncode: r["demo_clean_out"] = (x.stdout + x.stderr)[-800:]
        x = ns(sr, sv, f"git apply {sd}/patch.diff"); r["apply"] = x.returncode
        if x.returncode: r["err"] = x.stderr[-500:]; return r
        if not quickdemo or not notests:
            x = ns(sr, sv, "bash /opt/vp/build.sh"); r["build"] = x.returncode
            if x.returncode: r["err"] = (x.stdout + x.stderr)[-1500:]; return r
        if not notests:
            ns(sr, sv, f"bash /opt/vp/test.sh /tmp/seed_o{k}.json")
            r["broken_tests"] = sorted(stable - set(json.load(open(f"/tmp/seed_o{k}.json"))["passed"]))[:5]
        if not quickdemo:
            x = ns(sr, sv, f"bash {sd}/demo.sh", 300); r["demo_patched"] = x.returncode; r["demo_out"] = (x.stdout + x.stderr)[-300:]
        if not nocheck:
            for c in (checks.split(",") if checks else [meta["property"]]):
                x = ns(sr, sv, f"cd /verif && timeout 900 python3 check.py {c}", 1000)
                r[c] = f"{x.returncode} " + " | ".join((x.stdout + (x.stderr if x.returncode not in (0, 1) else "")).strip().split("\n")[-4:])[:300]
        return r
    finally:
        with lock: slots.append(k)
with cf.ThreadPoolExecutor(par) as ex:
    for r in ex.map(one, ids):
        ok = r.get("demo_clean", 0) == 0 and r.get("demo_patched", 1) != 0 and not r.get("broken_tests") and r.get("build", 0) == 0 and r["apply"] == 0
        print(("VALID  " if ok else "BAD    ") + json.dumps(r), flush=True)
