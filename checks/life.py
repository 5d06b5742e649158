"""C21: everything is released exactly once (spec/Life.tla, spec/Builder.tla)."""
from mbt import *
import writers
def row(r): return {0: "null", -2: "empty"}.get(r, str(r))
def dumped(e, rows): return f"nulls={len(rows)}" if e == 0 else "[" + ",".join(row(r) if e != 991 else str(r) for r in rows) + "]"
def line(h):
    a, s = h["a"], h["s"]
    op = h["op"]
    if op == "lnew": return f"lnew {s} {h['nm']} {a[0]}"
    if op == "lset": return f"lset {s} {a[0]} {a[1]}"
    if op == "lfin": return f"lfin {s} {a[0]} {'-' if a[1] < 0 else a[1]}"
    if op == "lstart": return f"lstart {s} {a[0]} {'type=%d' % a[1] if a[1] else '-'}"
    if op == "lpush": return f"lpush {s} {a[0]} {a[1] or '-'} {a[2]}"
    if op in ("lmk", "ldump", "lrel"): return " ".join([op, *map(str, a)])
    return " ".join([op, str(s), *map(str, a)])
def shown(h):
    """what the call shows besides ok"""
    if h["op"] == "ldump": return " " + dumped(h["e"], h["vis"])
    if h["op"] == "lvisit": return " " + dumped(1, h["rows"])
    return ""
OUT = {"lfin": lambda h: h["a"][1], "lpush": lambda h: h["a"][2] if h["a"][1] else -1, "ludf": lambda h: 0 if h["a"][0] == 2 else -1}
class Judge:
    """walks a history along with what the library did; the set of released resources has
    to stay between what must and what may have been released"""
    def __init__(self, case): self.c = case
    def __call__(self, got):
        seen, j, ex = {}, 0, []
        def step(h, g):
            m = re.fullmatch(r"(\w+)(.*) f=([\d,]*)( fired| unfired)?", g)
            if not m or m[1] != h["op"]: return f"{line(h)}: a line of {h['op']}"
            for x in m[3].split(","):
                if x: seen[int(x)] = seen.get(int(x), 0) + 1
            twice = [i for i, n in seen.items() if n > 1]
            if twice: return f"{line(h)}: {twice} released once"
            must, may = set(h["must"]), set(h["must"]) | set(h["may"])
            if not must <= set(seen): return f"{line(h)}: {sorted(must - set(seen))} released by now"
            if not set(seen) <= may: return f"{line(h)}: {sorted(set(seen) - may)} not released yet"
            res = m[2].strip()
            fired = m[4] == " fired"
            if (h["k"] != 0) != (m[4] is not None): return f"{line(h)}: harness"
            if h["op"] == "lreset": return None if res in ("", "none") and (res == "" or h.get("torn")) else f"{line(h)}: released and marked"
            if h["op"] in ("lmk", "lrel"): return None if res == "" or h.get("torn") else f"{h['op']} done"
            if h["op"] == "ldump": return None if res == shown(h).strip() else line(h) + ":" + shown(h)
            if fired:
                if res.split(" ")[0] == "err": return None
                want = "ok" + shown(h)
                o = OUT.get(h["op"], lambda h: -1)(h)
                if o >= 0 and h["r"] == "ok": want += " " + dumped(o, h["rows"])
                return None if res == want or h["r"] == "any" else f"{line(h)}: err, or {want}"
            if h["r"] == "any": return None if res.split(" ")[0] in ("ok", "err") else f"{line(h)}: ok or err"
            want = "err" if h["r"] == "err" else "ok" + shown(h)
            # a call that was to be hit but was not: its result was shown and dropped
            return None if res == want else f"{line(h)}: {want}"
        n = len(self.c["lines"])
        if len(got) != n: return ["%d lines" % n]
        for h, g in zip(self.c["lines"], got):
            w = step(h, g)
            ex.append(g if w is None else w)
            if w is not None: return ex
        return True
def cases(rs, tag, loom):
    out = []
    for i, c in enumerate(rs):
        script, lines = [], []
        torn = set()
        for h in c["hist"]:
            if h["k"]: script.append(f"loom {-h['k'] if loom and (i + h['k']) % 5 == 0 else h['k']}")
            if h["op"] == "lreset" and h["s"] in torn: h["torn"] = True; torn.discard(h["s"])
            if h["k"]: torn.add(h["s"])
            script.append(line(h)); lines.append(h)
        # the end: every object goes, what the caller owns is still whole, then it goes as well
        must, may = set(c["hist"][-1]["must"]), set(c["hist"][-1]["may"])
        n, perhaps = c["n"], set(c["perhaps"])
        mine = {a[0] for a in c["mine"]}
        def add(l, **kw):
            script.append(l)
            lines.append({"op": l.split()[0], "s": 0, "a": l.split()[1:], "r": "ok", "rows": [], "k": 0, "must": [], "may": list(range(1, n + 1)), **kw})
        for s in c["udf"]: add(f"ludf {s} 3 0 0", torn=True, r="any" if s in torn else "ok")
        for s in c["live"]: add(f"lreset {s}", torn=s in torn)
        keep = c.get("parts", [])
        for a, e, rows in c["mine"]:
            if e >= 0 and -1 not in rows: add(f"ldump {a}", e=e, vis=rows)
        for k, (a, e, rows) in enumerate(c["mine"]): add(f"lrel {a}", torn=True)
        lines[-1]["must"] = [x for x in range(1, n + 1) if x not in perhaps] if lines[-1]["op"] in ("lrel", "lreset", "ludf", "ldump") and (c["mine"] or c["live"]) else lines[-1]["must"]
        # objects that are gone took their own resources with them, and nothing of the caller's
        out.append(Case(f"{tag}-{i}", script, Judge({"lines": lines}), " ".join(h["op"] + ("!" if h["k"] else "") for h in c["hist"])[:120]))
    return out
INV = ["Owned", "OneOwner", "NotRead", "NotMine", "Clean", "Emitted"]
GROUPS = ("writers", "readers", "kernels", "functions", "geoms", "builders", "schemas")
def c21():
    ck = Check("C21")
    exe = B.build("asan")
    jobs, tags = [], []
    def add(tag, suite, group, slots, steps, faults, opt): jobs.append(("Life", {"Suite": suite, "Group": group, "NSlots": slots, "Steps": steps, "Faults": faults, "Emit": True}, INV, opt)); tags.append(tag)
    for g in GROUPS:
        add(f"fault.{g}", "fault", g, 2 if g == "geoms" else 1, {"writers": 2, "builders": 2, "geoms": 3, "schemas": 3, "functions": 5}.get(g, 3), set(range(1, 21 if THOROUGH else 9)), {"workers": 2})
    n = 6 if THOROUGH else 1
    for g in GROUPS:
        for m in ((16, 28) if THOROUGH else (16,)): add(f"walk{m}.{g}", "walk", g, 2, m, {1}, {"workers": 1, "sim": (400 * n, m + 2)})
    for m in ((24, 40) if THOROUGH else (24,)): add(f"walk{m}.few", "walk", "few", 3, m, {1}, {"workers": 1, "sim": (1500 * n, m + 2)})
    cs = []
    for t, r in zip(tags, ck.tlc_many(jobs, 4)): cs += cases(r, t, t.startswith("walk"))
    ck.run(exe, cs, leaks=True)
    # buffers handed to the builders, over long histories of appends
    ck.run(exe, writers.builder_histories(ck, True, 400 if THOROUGH else 60, "buf"), leaks=True)
    ck.finish()
