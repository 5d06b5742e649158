"""C25: the Python bindings (spec/Bindings.tla, ArrayView/BufView and DataTypes for what they show)."""
from mbt import *
import build_py, arrays, dtypes
def co(c): return [str(10 * c + 1), str(10 * c + 2)]
def row_wkb(g, r):
    b = struct.pack("<BI", 1, g)
    if g != 1: b += struct.pack("<I", len(r))
    return b + b"".join(struct.pack("<2d", 10 * c + 1, 10 * c + 2) for c in r)
def row_wkt(g, r):
    t = ["", "POINT", "LINESTRING"][g]
    return (t + " (" + ", ".join(" ".join(co(c)) for c in r) + ")" if r else t + " EMPTY").encode()
def row_show(t, g, r):
    if r == [-1]: return "null"
    if t == 990: return "b:" + (",".join(co(r[0]) + co(r[-1])) if r else "inf,inf,-inf,-inf")
    return f"{g}:" + ";".join(",".join(co(c)) for c in r)
def vals(b, rows, g):
    if b["f"] == "B": return b"".join(row_wkb(g, r) for r in rows).hex()
    return ",".join(map(str, b["v"]))
def bits(z, n): return "".join("0" if i + 1 in z else "1" for i in range(n))
EXT = {1: "point", 2: "linestring", 990: "box"}
KOUT = {"format_wkt": "u", "void": "n", "void_agg": "n", "visit_void_agg": "n", "box": "geoarrow.box", "box_agg": "geoarrow.box", "unique_geometry_types_agg": "i"}
def lists(t): return {1: 0, 990: 0, 2: 1, 4: 1, 3: 2, 5: 2, 6: 3}[t % 1000]
def program(c):
    """script of a program, and for every step: (op, what may be said)"""
    s, steps = [], []
    bt, slots, names = {}, {}, {}
    def end(h, *want): s.append(f"end {h['op']}"); steps.append((h, want))
    for h in c["hist"]:
        op, x, a, w = h["op"], h["x"], h["a"], h["want"]
        if op == "bld": bt[x] = a[0]; s.append(f"bld {x} {a[0]}"); end(h, "ok")
        elif op == "fill":
            t, n, keep, hasv, g, z = a[0], a[1], a[2], a[3], a[4], a[5:]
            bs = [("B", bits_hex(z, n), 0)] if hasv else []
            bs += [(b["f"], vals(b, w["rows"], g), j + 1) for j, b in enumerate(w["b"])]
            k = len(bs)
            order = [(x * 7 + i * (1 if k % 2 else k - 1)) % k for i in range(k)] if k else []
            if sorted(order) != list(range(k)): order = list(range(k))
            for i in order:
                f, v, j = bs[i]; e, fl = w["s"][i]
                slots[e] = (f, v, j, x)
                s.append(f"src {e} {e} {fl} {f} {v or '-'} {keep}"); s.append(f"set {x} {j} {f}")
            end(h, " ".join(["ok"] * k))
        elif op == "again":
            f, v, j, b = slots[a[0]]
            slots[a[1]] = (f, v, j, b)
            s.append(f"src {a[1]} {a[1]} {w[0]} {f} {v or '-'} {a[2]}"); s.append(f"set {x} {j} {f}"); end(h, "ok")
        elif op == "spread":
            f, v, j, b = slots[a[0]]
            s.append(f"spread {x} {j} {f} {v or '-'}"); end(h, "ok", "raised")
        elif op == "bad":
            t = bt[x]
            nb = 1 + (2 if t == 100001 else lists(t) + (1 if t // 10000 else (4 if t % 1000 == 990 else 2) + {0: 0, 1: 1, 2: 1, 3: 2}[t // 1000 % 10] * (2 if t % 1000 == 990 else 1)))
            s.append(f"bad {x} {a[0]} {nb}"); end(h, "raised")
        elif op == "grow": s.append(f"grow {x}"); end(h, "ok", "raised")
        elif op == "fin": s.append(f"fin {a[0]} {x}"); end(h, "ok")
        elif op == "given":
            t, i, hasv, g, n, z = a[0], a[1], a[2], a[3], a[4], a[5:]
            v = f"bits:{bits(z, n)}" if hasv else "N"
            F = {"i": "i32", "d": "f64"}
            if t == 100001: s.append(f"raw A {n} 0 {len(z)} {v}|i32:{vals(w['b'][0], w['rows'], g)}|hex:{vals(w['b'][1], w['rows'], g)}")
            elif t == 100003:
                tx = [row_wkt(g, r) for r in w["rows"]]
                s.append(f"raw A {n} 0 {len(z)} {v}|i32:{','.join(str(sum(map(len, tx[:k]))) for k in range(n + 1))}|hex:{b''.join(tx).hex()}")
            else:
                L = lists(t)
                bs = w["b"]
                leaf = bs[L:]
                cnt = n if L == 0 else bs[L - 1]["v"][-1]
                for j, b in enumerate(leaf): s.append(f"raw c{j} {len(b['v'])} 0 0 N|f64:{vals(b, [], g)}")
                s.append(f"raw {'A' if L == 0 else 'L'} {cnt} 0 {len(z) if L == 0 else 0} {v if L == 0 else 'N'} {'|'.join('c%d' % j for j in range(len(leaf)))}")
                assert L <= 1
                if L: s.append(f"raw A {n} 0 {len(z)} {v}|i32:{vals(bs[0], [], g)} L")
            s.append(f"given {x} {i} A"); end(h, "ok")
        elif op == "dump": s.append(f"dump {x} {w['t']}"); end(h, "[" + "|".join(row_show(w["t"], w["g"], r) for r in w["rows"]) + "]")
        elif op == "view": s.append(f"view {x} {a[0]} {a[1]}"); end(h, "ok")
        elif op == "viewbad": s.append(f"view tmp {x} {a[0]}"); end(h, "raised")
        elif op == "bufs":
            s.append(f"bufs {x} {a[0]}")
            end(h, "|".join(["N"] + [b["f"] + ":" + vals(b, w["rows"], w["g"]) for b in w["b"]]) if w["exact"] and not (len(w["b"]) == 2 and w["b"][1]["f"] == "B" and len(w["b"][0]["v"]) == 1) else re.compile("N" + "".join(r"\|" + b["f"] + ":[^|]*" for b in w["b"])))
        elif op == "mem": s.append(f"mem {x} {a[0]} {a[1]}"); end(h, "ok")
        elif op == "read": s.append(f"read {x}"); end(h, w["f"] + ":" + ",".join(map(str, w["v"])))
        elif op == "release": s.append(f"release {x}"); end(h, h["r"])
        elif op == "export": s.append(f"export {x} {a[0]}"); end(h, "ok")
        elif op == "del": s.append(f"del {x}"); end(h, "ok")
        elif op == "ker": names[x] = a[0]; s.append(f"ker {x} {a[0]}"); end(h, "ok")
        elif op == "noker": s.append(f"noker {a[0]}"); end(h, "raised")
        elif op == "start":
            o = a[1]
            e = KOUT.get(names[x]) or "geoarrow." + {100001: "wkb", 100003: "wkt"}.get(o, EXT.get(o % 1000, ""))
            s.append(f"start {x} {a[0]} {o if names[x] == 'as_geoarrow' else '-'}"); end(h, "ok " + e)
        elif op == "startbad": s.append(f"startbad {x} {a[0]}"); end(h, "raised")
        elif op == "push": s.append(f"push {x} {a[0]} {a[1]}"); end(h, "ok")
        elif op == "pushagg": s.append(f"pushagg {x} {a[0]}"); end(h, "ok")
        elif op == "pushbad": s.append(f"pushbad {x} {a[0]}"); end(h, "raised")
        elif op == "pushgone": s.append(f"pushgone {x} {a[0]} {a[1]}"); end(h, "raised")
        elif op == "finish": s.append(f"finish {x}"); end(h, "ok")
        elif op == "finagg":
            v = w["v"]
            e = {"box": lambda: "box:" + (",".join(co(v[0]) + co(v[1])) if v else "inf,inf,-inf,-inf"), "types": lambda: "types:" + ",".join(map(str, v)), "null": lambda: "null:1,1"}[w["k"]]()
            s.append(f"finagg {x} {w['k']}"); end(h, "ok " + e)
        else: raise KeyError(op)
    # in the end everything goes
    last = {"op": "all", "dead": c["tracked"], "held": [], "r": "ok"}
    for i, e in enumerate(c["last"], 1):
        if e["v"] and e["k"] not in ("res",): s.append(f"del {i}")
    s.append("end all"); steps.append((last, (re.compile("(ok ?)*"),)))
    return s, steps
def bits_hex(z, n):
    b = bits(z, n)
    return bytes(sum(1 << k for k in range(8) if i + k < n and b[i + k] == "1") for i in range(0, n, 8)).hex()
class Judge:
    def __init__(self, steps): self.steps = steps
    def __call__(self, got):
        gone, out = set(), []
        if len(got) != len(self.steps): return ["%d lines" % len(self.steps)]
        for (h, want), g in zip(self.steps, got):
            m = re.fullmatch(r"(\w+) (.*?) ?d=([\d,]*)", g)
            bad = None
            if not m or m[1] != h["op"]: bad = "a line of " + h["op"]
            elif not any(w.fullmatch(m[2]) if hasattr(w, "fullmatch") else w == m[2] for w in want): bad = f"{h['op']} " + " or ".join(str(getattr(w, "pattern", w)) for w in want)
            else:
                for x in m[3].split(","):
                    if x and int(x) in gone: bad = f"{h['op']}: {x} goes once"
                    if x: gone.add(int(x))
                miss = set(h["dead"]) - gone
                early = gone & set(h["held"])
                if miss: bad = f"{h['op']}: {sorted(miss)} gone by now"
                if early: bad = f"{h['op']}: {sorted(early)} not gone yet"
            out.append(g if bad is None else bad)
            if bad: return out
        return True
def programs(ck):
    INV = ["Wellfounded", "NoDangling", "Readable", "OneOwner", "Consistent", "Emitted"]
    n = 12 if THOROUGH else 1
    jobs = [("Bindings", {"Suite": s, "Steps": m, "Emit": True}, INV, {"workers": 1, "sim": (k * n, m + 2)}) for s, m, k in (("memory", 14, 500), ("memory", 26, 400), ("kernels", 14, 500), ("kernels", 26, 400), ("walk", 24, 600))]
    jobs.append(("Bindings", {"Suite": "short", "Steps": 7 if THOROUGH else 6, "Emit": True}, INV, {"workers": 3}))
    out = []
    for j, (job, r) in enumerate(zip(jobs, ck.tlc_many(jobs, 5))):
        for i, c in enumerate(r):
            s, st = program(c)
            out.append(Case(f"{job[1]['Suite']}{j}-{i}", s, Judge(st), " ".join(h["op"] for h in c["hist"])))
    return out
def runs(text, f):
    k, v = text.split(":", 1) if ":" in text else ("?", "")
    if k != f: return None
    return [x for x in v.split(",") if x]
class Shown:
    """what a view shows of a slice: prefixes of the buffers behind it, and enough of them"""
    def __init__(self, c): self.c = c
    def __call__(self, got):
        c, L = self.c, arrays.LEVELS[self.c["kind"]]
        if len(got) != 2 or got[1] != "all ok ok d=": return ["view", "all ok ok d="]
        m = re.fullmatch("view ok (.*) d=", got[0])
        if not m: return ["view ok ..."]
        bs = m[1].split("|")
        if len(bs) != 1 + len(c["need"]) or bs[0] != "N": return [f"{1 + len(c['need'])} buffers, the first none"]
        for k, (b, need) in enumerate(zip(bs[1:], c["need"])):
            phys = list(map(str, c["offs"][k])) if k < L else [pyg(x) for x in c["ords"][k - L][c["c"][k - L]:]]
            r = runs(b, "i" if k < L else "d")
            if r is None: return [f"buffer {k + 1} of another format"]
            if r == ["0"] and k < L and need == 0: continue
            if len(r) < need: return [f"buffer {k + 1}: {need} values or more"]
            if r != phys[:len(r)]: return [f"buffer {k + 1}: {','.join(phys)}"]
        return True
def pyg(x): return str(x)
def views(ck):
    sh = 6
    jobs = [("BufView", {"Suite": "full" if THOROUGH else "quick", "Shard": (SEED + k) % sh, "Shards": sh, "Emit": True}, ["Complete", "Contained", "Tight", "BEmitted"], {"workers": 3, "init": "SPECIFICATION BSpec"}) for k in range(sh if THOROUGH else 1)]
    out = []
    for j, r in enumerate(ck.tlc_many(jobs, 2)):
        for i, c in enumerate(r):
            t = c["kind"] + (c["d"] - 1) * 1000 + 10000 * c["inter"]
            s = arrays.raw_lines(c) + [f"reslice A {c['ro']} {c['rl']}", "hold 1 A", f"view 2 1 {t}", "bufs 3 2", "end view", "del 1", "del 2", "end all"]
            out.append(Case(f"view{j}-{i}", s, Shown(c)))
    return out
# ---- data types: the histories of C24 as far as the bindings go
def py_see(x, o):
    if o["t"] == 0: return [f"dtempty {x}", f"dtstr {x}"], ["dtempty 16", "dtstr <Uninitialized CGeometryDataType>"]
    return [f"dtsee {x}", f"dtstr {x}"], [f"dtsee t={o['t']} g={o['g']} d={o['d']} c={o['c']} e={o['e']} r={o['r']} crs={dtypes.crs(o['s'])} ext={o['ext']}", f"dtstr {o['str']}"]
def py_start(f, i):
    rx, meta = dtypes.rx, dtypes.meta
    if f["t"] == 0: return ["dtnew X1"], ["dtnew ok"]
    n = i % 4
    if n == 0: return [f"dtnew X1 {f['t']} {rx(meta(f, i // 4))}"], ["dtnew ok"]
    if n == 1 and f["s"]: return [f"dtnew X0 {f['t']} {rx(meta(dict(f, r=0, s=''), i))}", f"dtop X0 X1 crs {f['r']} {rx(f['s'])}", "dtdel X0"], ["dtnew ok", "dtop ok"]
    if n < 3: return [f"dtnew X0 {f['t']} {rx(meta(dict(f, e=0), i))}", f"dtop X0 X1 e {f['e']}", "dtdel X0"], ["dtnew ok", "dtop ok"]
    return [f"dtnew X0 {f['t']} {rx(meta(f, i))}", f"dtop X0 X1 {'schema' if i % 8 == 3 else 'storage'} 0", "dtdel X0"], ["dtnew ok", "dtop ok"]
def py_types(ck):
    n = 61
    jobs = [("DataTypes", {"Suite": "step", "Steps": 1, "Shard": k, "Shards": n, "Emit": True}, dtypes.INV, {"workers": 2}) for k in ((SEED * 7 + j * 23) % n for j in range(12 if THOROUGH else 1))]
    jobs += [("DataTypes", {"Suite": "py", "Steps": m, "Shard": 0, "Shards": 1, "Emit": True}, dtypes.INV, {"workers": 1, "sim": ((600, m + 1) if THOROUGH else (80, m + 1))}) for m in ((12, 20, 40) if THOROUGH else (12, 20))]
    PY = {"g", "d", "c", "e", "crs", "schema", "storage", "parts"}
    out = []
    for j, (job, r) in enumerate(zip(jobs, ck.tlc_many(jobs, 4))):
        for i, c in enumerate(r):
            objs, first = c["objs"], c["first"]
            if any(o.get("s") == "LONLAT" for o in (first, *objs)) or any(l["w"] not in PY | {"end", "drop"} for l in c["log"]): continue
            s, ex = py_start(first, i + SEED)
            k = 1
            if len(c["log"]) > 1: s.append("dtnew X2"); ex.append("dtnew ok"); k = 2
            for l in c["log"]:
                w, v, x = l["w"], l["v"], f"X{l['k']}"
                if w == "end": continue
                if w == "drop": s.append(f"dtdel {x}"); continue
                y = f"X{k + 1}"
                if l["ok"]: k += 1
                s.append(f"dtop {x} {y} " + (f"crs {v % 10} {dtypes.rx(dtypes.TEXTS[v // 10])}" if w == "crs" else f"{w} {v}")); ex.append("dtop ok" if l["ok"] else "dtop raised")
            live = [(f"X{m}", o) for m, o in enumerate(objs, 1) if o["t"] != -1]
            for x, o in live: a, b = py_see(x, o); s += a; ex += b
            same = lambda a, b: all(a[q] == b[q] for q in "ters")
            for m, (x, o) in enumerate(live):
                y, p = live[(m * 3 + i) % len(live)]
                if o["t"] and p["t"]: s.append(f"dteq {x} {y}"); ex.append(f"dteq {int(same(o, p))}")
            out.append(Case(f"dt{j}-{i}", s, ex))
    return out
DIMS = ["", "_Z", "_M", "_ZM"]
def consts():
    e = {f"GEOARROW_TYPE_{n}": v for n, v in dict(UNINITIALIZED=0, WKB=100001, LARGE_WKB=100002, WKT=100003, LARGE_WKT=100004, WKB_VIEW=100005, WKT_VIEW=100006).items()}
    G = ["GEOMETRY", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION"]
    for d in range(4):
        e[f"GEOARROW_TYPE_BOX{DIMS[d]}"] = 990 + 1000 * d
        for g in range(1, 7): e[f"GEOARROW_TYPE_{G[g]}{DIMS[d]}"] = g + 1000 * d; e[f"GEOARROW_TYPE_INTERLEAVED_{G[g]}{DIMS[d]}"] = g + 1000 * d + 10000
    e.update({f"GEOARROW_GEOMETRY_TYPE_{n}": i for i, n in enumerate(G)}); e["GEOARROW_GEOMETRY_TYPE_BOX"] = 990
    for p, ns in (("DIMENSIONS", "UNKNOWN XY XYZ XYM XYZM"), ("COORD_TYPE", "UNKNOWN SEPARATE INTERLEAVED"), ("EDGE_TYPE", "PLANAR SPHERICAL VINCENTY THOMAS ANDOYER KARNEY"), ("CRS_TYPE", "NONE UNKNOWN PROJJSON WKT2_2019 AUTHORITY_CODE SRID")):
        e.update({f"GEOARROW_{p}_{n}": i for i, n in enumerate(ns.split())})
    return [Case("constants", [f"dtconst {n}" for n in e], [f"dtconst {v}" for v in e.values()])]
def c25():
    ck = Check("C25")
    exe = build_py.build()
    ck.run(exe, programs(ck) + views(ck) + py_types(ck) + consts())
    ck.finish()
