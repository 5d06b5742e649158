"""C22: C++ views of native arrays."""
from mbt import *
from arrays import raw_lines, ser_lines, ser_scenarios
NV = {1: 2, 2: 3, 3: 3, 4: 4}
AX = {1: (1, 2), 2: (1, 2, 3), 3: (1, 2, 4), 4: (1, 2, 3, 4)}
BOX = 990
def n(x): return "nan" if x == -1 else str(x)
def co(c): return ",".join(n(x) for x in c)
def show(e, lv):
    return co(e) if lv == 0 else "[" + " ".join(show(x, lv - 1) for x in e) + "]"
LV = {1: 0, 2: 1, 3: 2, 4: 1, 5: 2, 6: 3, 990: 0}
def cut(e, lv, k): return e[:k] if lv == 0 else [cut(x, lv - 1, k) for x in e]
def ctype(k, d, inter): return (990 if k == BOX else k) + 1000 * (d - 1) + (10000 if inter else 0)
def case(cid, c, i):
    kind, d, vd, inter, h = c["kind"], c["d"], c["vd"], c["inter"], c["h"]
    lv, box = LV[kind], kind == BOX
    w = 2 * NV[vd] if box else NV[vd]
    T, VT = ctype(kind, d, inter), ctype(kind, vd, False)
    # a multipoint is viewed like a linestring and so on: the kind of view says what edges are
    s, ex = raw_lines(c), []
    sl = [l for l in c["log"] if l[0] == "slice"]
    ops = [l for l in c["log"] if l[0] != "slice"]
    # the scenario's own window is either the array's or the view's
    if h % 3 == 0:
        s.append(f"reslice A {sl[0][1]} {sl[0][2]}"); sl = sl[1:]
    S = ";".join(f"{l[1]}:{l[2]}" for l in sl) or "-"
    pre = f"cv A {T} {VT} {S}"
    val = lambda v: show(cut(v[1], lv, w), lv) if v[0] == "e" else co(v[1][:w]) if v[0] == "c" else n(v[1])
    tgt = c["tgt"]
    out, o = "", []
    for l in ops:
        op = l[0]
        if op in "+-": o.append(op)
        elif op in "as": o.append(f"{op}{l[1]}")
        elif op == "[": o.append(f"[{l[1]}"); out += " " + val(l[2])
        elif op in "p*": o.append(op); out += " " + val(l[2])
        else:
            o.append("d"); p, z = l[1], l[2]
            b = [p < z, p == z, p > 0, p >= z, p <= 0, p != 0]
            out += f" {p}/{z - p}/" + "".join("01"[x] for x in b)
    um = (h // 3) % 256
    if tgt == "coords":
        el = [cut(e, lv, w) for e in c["elems"]]
        d_ = "".join(f" | {'' if v else 'nul '}{show(e, lv)}" for e, v in zip(el, c["ok"]))
        s.append(f"{pre} dump"); ex.append("cvdump" + d_)
        if not box:
            s.append(f"{pre} all"); ex.append("cvall [" + " ".join(co(x[:w]) for x in c["all"]) + "]")
            for to in range(1, 5):
                s.append(f"{pre} verts {to}"); ex.append("cvverts" + "".join(" " + co(x) for x in c["verts"][to - 1]))
                s.append(f"{pre} edges {to}"); ex.append("cvedges" + "".join(f" {co(a)}>{co(b)}" for a, b in c["edges"][to - 1]))
        else:
            k = NV[d]
            half = lambda a: "".join(f" | {'' if v else 'nul '}{co(e[a:a + k])}" for e, v in zip(c["elems"], c["ok"]))
            full = lambda e, miss=-1: [e[AX[d].index(a)] if a in AX[d] else miss for a in (1, 2, 3, 4)]
            hv = lambda a: "".join(" " + co(full(e[a:a + k])) for e, v in zip(c["elems"], c["ok"]) if v)
            ex += ["cvlower" + half(0), "cvupper" + half(k), "cvlv" + hv(0), "cvhv" + hv(k)]
            ex.append("cvbox" + "".join(f" {co(e[:k])}/{co(e[k:])}/{co(full(e[:k], "inf"))},{co(full(e[k:], "-inf"))}" for e in c["elems"]))
            ex.append("cvempty " + ",".join(["inf"] * k + ["-inf"] * k))
        s.append(f"{pre} type"); ex.append(f"cvtype {990 if box else kind} {vd}")
    if tgt == "ucoords" and not box:
        for to in range(1, 5):
            s.append(f"{pre} walk visit {um} {to} v"); ex.append("cvu" + "".join(" " + co([x if x != -1 else -1 for x in cast(a, vd, to)]) for a in c["all"]))
            s.append(f"{pre} walk visit {um} {to} e"); ex.append("cvu" + "".join(f" {co(a)}>{co(b)}" for a, b in c["uedges"][to - 1]))
    s.append(f"{pre} walk {tgt} {um} {c['dim']} {';'.join(o)}"); ex.append("cvwalk" + out)
    if i % 5 == 0:
        s.append(f"cvfit A {T}"); ex.append("cvfit " + " ".join("".join("01"[b] for b in r) for r in c["fits"]))
    return Case(cid, s, ex, f"type {T} as {VT}, slices {S}, {tgt}")
def cast(x, vd, to): return [x[AX[vd].index(a)] if a in AX[vd] else -1 for a in AX[to]]

def wkb_case(cid, c, i):
    s = ser_lines(c)
    ro, rl = c["ro"], c["rl"]
    k = i % 3
    if k == 0: sl = f"{ro}:{rl}"
    elif k == 1: s.append(f"reslice A {ro} {rl}"); sl = "-"
    else: a = ro // 2; s.append(f"reslice A {a} {ro - a + rl}"); sl = f"0:{ro - a + rl};{ro - a}:{rl}"
    win = c["items"][ro:ro + rl]
    toks = lambda k: wkb_bytes(c["toks"][k - 1])
    crd = lambda d, j, to: ",".join(n(10 * j + a) if a in AX[d] else "nan" for a in AX[to])
    head = {k: (struct.unpack("<I", toks(k)[1:5])) for k in set(win) if k}
    ex = ["cvwkb" + "".join(" " + (toks(k).hex() if k else "nul") for k in win)]
    for to in range(1, 5):
        ex.append("cvverts" + "".join(" " + crd(d, j, to) for d, j in c["verts"]))
        ex.append("cvedges" + "".join(f" {crd(d, x, to)}>{crd(d, y, to)}" for d, x, y in c["edges"]))
    ex.append("cvgeoms" + "".join(" " + (f"{head[k][0] % 1000}.{head[k][0] // 1000 + 1}" if k else "nul") for k in win))
    return Case(cid, s + [f"cvwkb A {sl}"], ex, f"wkb window {ro}:{rl} of {len(c['items'])}")

INV = ["InWindow", "Follows", "VEmitted"]
def c22():
    ck = Check("C22")
    exe = B.build("asan")
    shards, vs = 7, 61
    pick = [(s, v) for s in range(shards) for v in range(vs)]
    n = 70 if THOROUGH else 4
    sel = [pick[(SEED * 101 + k * 61 + k * 13 + k // 7) % len(pick)] for k in range(n)]
    jobs = [("Views", {"Suite": "quick", "Shard": a, "Shards": shards, "Emit": True, "WalkLen": 14 if THOROUGH else 10, "VShard": v, "VShards": vs}, INV, {"init": "SPECIFICATION VSpec", "workers": 2}) for a, v in sel]
    cases = []
    for (a, v), r in zip(sel, ck.tlc_many(jobs, 4)):
        for i, c in enumerate(r): cases.append(case(f"{a}.{v}-{i}", c, i))
    for i, c in enumerate(ser_scenarios(ck)):
        if c["fmt"] == "i32" and not c["txt"]: cases.append(wkb_case(f"wkb-{i}", c, i))
    ck.run(exe, cases)
    ck.finish()
