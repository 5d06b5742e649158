"""C11: geometry objects against spec/GeomObj.tla and spec/NodeList.tla."""
from mbt import *
import arrays as A
def lines(log, turn):
    s, e = ["new X rec"] + [f"new G{i} geom" for i in (1, 2, 3)], []
    for o in log:
        k = o["o"]
        if k in ("build", "abandon"): s.append(f"ev {o['x']} {o['k'] % 4} {toks(o['evs'])}"); e.append("ev 0")
        elif k == "hand": s.append(f"hand {o['x']} {o['k']} {toks(o['evs'])}")
        elif k == "free": s.append(f"handfree {o['x']}")
        elif k == "shallow" and turn % 2:
            turn += 2
            s.append(f"gfill {turn // 2 % 5} {o['x']} {o['y']}"); e.append("gcopy 0")
        elif k in ("deep", "shallow"): s.append(f"gcopy {k} {o['x']} {o['y']}"); e.append("gcopy 0")
        else:
            s += [f"gvisit {o['x']} X", "events X", "clear X", f"numcoords {o['x']}"]
            e += ["gvisit 0", A.plain_line(o["evs"], False), f"n {o['n']}"]
    return s, e
GI = ["Runs", "Sound", "Visits", "Emitted"]
def c11():
    ck = Check("C11")
    exe = B.build("asan")
    base = {"Turn": SEED, "Emit": True}
    n = 4
    jobs = [("GeomObj", dict(base, Suite="chain", Shard=k if THOROUGH else (SEED + k) % n, Shards=n, MaxOps=0), GI, {"workers": 2}) for k in range(n)]
    jobs += [("GeomObj", dict(base, Suite="hist", Shard=0, Shards=1, MaxOps=4), GI, {"workers": 3}),
             ("GeomObj", dict(base, Suite="hist", Shard=SEED % 16, Shards=16 if THOROUGH else 4, MaxOps=6 if THOROUGH else 5) | ({} if THOROUGH else {"Shard": SEED % 4}), GI, {"workers": 4, "heap": "6g"})]
    jobs += [("NodeList", {"MaxLen": 3, "Shard": 0, "Shards": 1, "Turn": SEED, "Emit": True}, ["Declared", "Balanced", "Emitted"], {"workers": 2}),
             ("NodeList", {"MaxLen": 5 if THOROUGH else 4, "Shard": SEED % 8, "Shards": 40 if THOROUGH else 8, "Turn": SEED, "Emit": True}, ["Declared", "Balanced", "Emitted"], {"workers": 2})]
    cases = []
    for j, cs in zip(jobs, ck.tlc_many(jobs, 5)):
        for i, c in enumerate(cs):
            if j[0] == "GeomObj":
                s, e = lines(c["log"], i + SEED)
                cases.append(Case(f"{j[1]['Suite']}{j[1]['MaxOps']}.{j[1]['Shard']}-{i}", s, e))
                continue
            ev = A.plain_line(c["evs"], False)
            nl = " ".join(f"{t}:{'H' if z == 9 else z}" for t, z in c["nl"])
            good = "hand K 0 fs gs:3:2 rs c:2:0:2 re ge fe"
            s = ["new X rec", f"nodes H {c['d']} {nl}", "gvisit H X"] + (["events X"] if c["ok"] == "ok" else []) + \
                ["clear X", "new G geom", "gcopy shallow H G", "gvisit G X"] + (["events X"] if c["ok"] == "ok" else []) + ["clear X", good, "gcopy deep K G", "gvisit G X", "events X"]
            def expect(got, ok=c["ok"], ev=ev):
                tail = ["gcopy 0", "gvisit 0", "events fs gs:3:2 rs c:3:1,2,3;11,12,13 re ge fe"]
                if ok == "ok": return ["gvisit 0", ev, "gcopy 0", "gvisit 0", ev] + tail
                w = ["gvisit <refused>", "gcopy 0", "gvisit <refused>"] + tail
                if not got or len(got) != len(w) or got[3:] != tail or got[1] != w[1]: return w
                return True if all(l.startswith("gvisit ") and (ok == "any" or l != "gvisit 0") for l in (got[0], got[2])) else w
            cases.append(Case(f"nodes{j[1]['MaxLen']}-{i}", s, expect, info=c["nl"]))
    ck.run(exe, cases, leaks=True)
    ck.finish()
