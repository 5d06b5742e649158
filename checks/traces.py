"""C01: executions of the real readers, recorded and checked by TLC against spec/ProtoTrace.tla."""
from mbt import *
import arrays as A, readers as R, text as T
CODE = 1234
def shape(evs):
    """predicted events other than coordinates, and the null pattern"""
    w, nulls = [], []
    for e in evs:
        if e[0] in ("c", "v"): continue
        if e[0] == "fs": nulls.append(0)
        if e[0] == "nul": nulls[-1] = 1
        w.append(list(e) if not isinstance(e, str) else [e])
    return w, nulls
class Src:
    def __init__(self, id, pre, cmd, must, evs=None, n=-1, nulls=()):
        self.id, self.pre, self.cmd, self.must = id, pre, cmd, must
        self.want, self.nulls = shape(evs) if evs is not None else ([], list(nulls))
        self.n = len(self.nulls) if evs is not None else n
def one(evs): return [["fs"]] + [e for e in evs] + [["fe"]]
def sources(ck):
    out, q = [], not THOROUGH
    def some(xs, n):
        xs = list(xs); st = max(1, len(xs) // n) if q else 1
        return xs[SEED % st::st] if len(xs) > n else xs
    # --- text
    jobs = [("valid", 0, 1), ("big", 0, 1), ("lexemes", SEED % 3, 3), ("chars", SEED % 6, 6)]
    ex = cf.ThreadPoolExecutor(4)
    fd, fm, fa, fs = (ex.submit(f, *a) for f, a in ((R.dial_suites, (ck,)), (R.damage_suites, (ck,)), (A.scenarios, (ck, "quick", 3)), (A.ser_scenarios, (ck,))))
    r = ck.tlc_many([("WktRead", {"Suite": s, "Shard": k, "Shards": n, "DepthSure": 32, "Emit": True}, T.INV, {"workers": 3}) for s, k, n in jobs], 4)
    HG = b"POINT (1 2)".hex(); EG = [["fs"], ["gs", 1, 1], ["ge"], ["fe"]]; NU = [["fs"], ["nul"], ["fe"]]
    for (s, k, _), cs in zip(jobs, r):
        for i, c in enumerate(some(cs, {"valid": 250, "big": 40, "lexemes": 500, "chars": 500}[s])):
            b = T.raw_text(c["txt"]).hex() or "-"
            out.append(Src(f"wkt-{s}-{i}", [], f"rdwkt R {b} X", c["ok"], one(c["evs"]) if c["ok"] == "ok" else None, n=1, nulls=[0]))
            if i % 3 == 0:
                t = (100003, -100004, 100004, -100003)[(i // 3) % 4]
                ok = c["ok"] == "ok"
                ev = NU + one(c["evs"]) + EG + NU if ok else None
                rng = "1 4"
                if t < 0: ev, rng = (one(c["evs"]) + EG + NU if ok else None), "0 3"
                pre = [f"mkser A {t} {HG} null {b} {HG} null"]
                out.append(Src(f"wkt-{s}-{i}-arr", pre, f"visit A {abs(t)} {rng} X", c["ok"], ev, n=4 if t > 0 else 3, nulls=[1, 0, 0, 1] if t > 0 else [0, 0, 1]))
    # --- binary
    for name, cs in fd.result().items():
        for i, c in enumerate(some(cs, 150)):
            b = R.render(c["toks"], R.Plain()).hex()
            cmd = [f"rdwkb R {b} X", f"wkbview R {b} visit X"][i % 2]
            evs = c["evs"]
            out.append(Src(f"wkb-{name}-{i}", [], cmd, "ok", evs))
            if i % 2 == 0:
                t = (100001, -100002, 100002, -100001)[(i // 2) % 4]
                ev = NU + list(evs) + NU; rng = "1 3"
                if t < 0: ev, rng = list(evs) + NU, "0 2"
                out.append(Src(f"wkb-{name}-{i}-arr", [f"mkser A {t} {R.GOOD.hex()} null {b} null"], f"visit A {abs(t)} {rng} X", "ok", ev))
    dam, pairs = fm.result()
    for i, c in enumerate(some(dam, 500) + some(pairs, 150)):
        if "bytes" not in c: continue
        b = bytes(c["bytes"]).hex() or "-"
        out.append(Src(f"wkb-damage-{i}", [], f"rdwkb R {b} X", "ok" if c["ok"] else "no", c["evs"] if c["ok"] else None, n=1, nulls=[0]))
        if i % 2 == 0:
            t = (100001, 100002)[(i // 2) % 2]
            out.append(Src(f"wkb-damage-{i}-arr", [f"mkser A {t} {R.GOOD.hex()} null {b} null"], f"visit A {t} 1 3 X", "ok" if c["ok"] else "no", NU + list(c["evs"]) + NU if c["ok"] else None))
    # --- native and serialized arrays, element ranges
    for i, c in enumerate(some(fa.result(), 600)):
        cmd = ("visit", "vnat")[i % 2]
        out.append(Src(f"nat-{i}", A.raw_lines(c), f"{cmd} A {A.arr_type(c)} {c['ro']} {c['rl']} X", "ok", c["evs"]))
    for i, c in enumerate(some(fs.result(), 300)):
        out.append(Src(f"ser-{i}", A.ser_lines(c), f"visit A {A.SERTYPE[(c['fmt'], c['txt'])]} {c['ro']} {c['rl']} X", "ok", c["evs"]))
    return out
def ev_json(t):
    p = t.split(":")
    if p[0] == "gs": return ["gs", int(p[1]), int(p[2])]
    if p[0] == "c": return ["c", int(p[1]), p[2], len(p[2].split(";")) if p[2] else 0]
    return [t]
def rc_of(l):
    w = l.split()
    if w[-1] == "0": return 0
    return {"EINVAL": 22, "ENOTSUP": 95, "EAGAIN": 11, "EOVERFLOW": 75, "ENOMEM": 12}.get(w[-1]) or int(w[-1][1:])
def c01():
    ck = Check("C01")
    exe = B.build("asan")
    src = sources(ck)
    most = 400 if THOROUGH else 14
    cases = [Case(s.id, s.pre + ["new X rec -1 0 1", f"aborts X {CODE} {most} {s.cmd}"], lambda got: bool(got) and len(got) % 2 == 0 and not any(l[0] == "!" for l in got) or ["(recording)"]) for s in src]
    res = ck.run(exe, cases, leaks=True)
    groups = []
    for s in src:
        got = res.get(s.id)
        if not got or len(got) % 2 or any(l[0] == "!" for l in got): continue
        runs = []
        for a, b in zip(got[::2], got[1::2]):
            w = b.split()
            runs.append({"k": int(w[1]), "code": CODE, "rc": rc_of(a), "after": int(w[2]), "ev": [ev_json(t) for t in w[3:]]})
        groups.append({"id": s.id, "n": s.n, "nulls": s.nulls, "must": s.must, "want": s.want, "loose": s.id.startswith("wkb-"), "runs": runs})
    n = 6
    parts = [groups[k::n] for k in range(n)]
    jobs = [("ProtoTrace", {"File": f"traces{k}.json", "Shard": 0, "Shards": 1}, ["Rejected", "Balanced"], {"workers": 2, "extra_files": {f"traces{k}.json": json.dumps(p)}}) for k, p in enumerate(parts) if p]
    script = {c.id: c.script for c in cases}
    for rej in ck.tlc_many(jobs, 4):
        for x in rej: ck.fail(x["id"], f"{x['id']} {x['why']}", {"rejected": x, "script": script[x["id"]], "recorded": (res[x["id"]][2 * x["run"] - 2:2 * x["run"]])})
    ck.notes["recorded_runs"] = sum(len(g["runs"]) for g in groups)
    ck.finish()
