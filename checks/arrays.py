"""C09 (and the array material of other checks): physical Arrow arrays against spec/ArrayView.tla."""
from mbt import *
INV = ["Faithful", "InBounds", "Monotone", "Compact", "Balanced", "Emitted"]
LEVELS = {1: 0, 990: 0, 2: 1, 4: 1, 3: 2, 5: 2, 6: 3}
def arr_type(c): return c["kind"] + (c["d"] - 1) * 1000 + (10000 if c["inter"] else 0)
def ev_line(evs):
    o = ["events"]
    for e in evs:
        o.append(f"c:{e[1]}:" + ";".join(",".join(map(str, x)) for x in e[2]) if e[0] == "v" else tok(e))
    return " ".join(o)
def raw_lines(c, name="A", nulls="auto", pre="k"):
    """script lines that build the physical array of a scenario"""
    L, s = LEVELS[c["kind"]], []
    n = len(c["ords"])
    for j, o in enumerate(c["ords"]):
        cj = c["c"][j]
        s.append(f"raw {pre}{j} {len(o) - cj} {cj} 0 N|f64:{','.join(map(str, o))}")
    leaf = f"{c['lens'][L]} {c['o'][L]}"
    kids = "|".join(f"{pre}{j}" for j in range(n))
    bits = "1" * (c["o"][0] % 3) + "0" * (c["o"][0] - c["o"][0] % 3) + valid_txt(c["valid"])
    nn = c["valid"].count(0)
    v = ("N" if nn == 0 and (c["o"][0] + len(c["valid"])) % 2 else f"bits:{bits}")
    nc = (nn, -1)[(len(bits) + n) % 2] if v != "N" else 0
    cur = name if L == 0 else pre + "L"
    s.append(f"raw {cur} {leaf} {nc if L == 0 else 0} {v if L == 0 else 'N'} {kids}")
    for l in range(L - 1, -1, -1):
        nxt = name if l == 0 else f"{pre}l{l}"
        s.append(f"raw {nxt} {c['lens'][l]} {c['o'][l]} {nc if l == 0 else 0} {v if l == 0 else 'N'}|i32:{','.join(map(str, c['offs'][l]))} {cur}")
        cur = nxt
    return s
def scenarios(ck, suite="quick", shards=3, n=None):
    jobs = [("ArrayView", {"Suite": suite, "Shard": (SEED + k) % shards, "Shards": shards, "Emit": True}, INV, {"workers": 3})
            for k in range(n or (shards if THOROUGH else 1))]
    return [c for r in ck.tlc_many(jobs, 3) for c in r]

SERTYPE = {("i32", False): 100001, ("i64", False): 100002, ("i32", True): 100003, ("i64", True): 100004, ("view", False): 100005, ("view", True): 100006}
def ser_lines(c, name="A"):
    """script lines that build the physical array of a SerView scenario"""
    txt = c["txt"]
    val = lambda k: (wkt_text(c["toks"][k - 1]).encode() if txt else wkb_bytes(c["toks"][k - 1])) if k else b""
    n, o = len(c["items"]), c["o"]
    valid = [1 if k else 0 for k in c["items"]]
    bits = "10"[: o % 2 + 1] * o
    bits = bits[:o] + valid_txt(valid)
    v = "N" if all(valid) and (n + o) % 2 else f"bits:{bits}"
    nc = 0 if v == "N" else (-1, valid.count(0))[n % 2]
    if c["fmt"] != "view":
        data, offs = b"", [c["junk"] * j for j in range(o)]
        data = b"\x07" * (c["junk"] * o)
        for k, p in zip(c["items"], c["pos"]):
            assert p[1] == len(data) and p[2] == len(val(k)), (p, len(data), len(val(k)))
            offs.append(len(data)); data += val(k)
        offs.append(len(data))
        return [f"raw {name} {n} {o} {nc} {v}|{c['fmt']}:{','.join(map(str, offs))}|hex:{data.hex()} -"]
    bufs = [bytearray(b"\x07" * 3) for _ in range(c["nbuf"])]
    views = b""
    for j in range(o): views += struct.pack("<i", 4) + b"\x07\x07\x07\x07" + bytes(8)
    for k, p in zip(c["items"], c["pos"]):
        x = val(k); assert len(x) == p[2]
        if len(x) <= 12: views += struct.pack("<i", len(x)) + x.ljust(12, b"\0")
        else:
            b = bufs[p[0] - 1]; assert len(b) == p[1]
            views += struct.pack("<i", len(x)) + x[:4] + struct.pack("<ii", p[0] - 1, p[1])
            b += x + b"\x07\x07"
    return [f"raw {name} {n} {o} {nc} {v}|hex:{views.hex()}|" + "|".join(f"hex:{bytes(b).hex()}" for b in bufs)
            + "|i64:" + ",".join(str(len(b)) for b in bufs) + " -"]
def plain_line(evs, empty_nan):
    """predicted events of numbered coordinates; an empty point of WKB is one NaN coordinate"""
    o = ["events"]
    for e in evs:
        if e[0] == "c":
            if e[3]: o.append(f"c:{NV[e[1]]}:" + ";".join(",".join(str(ordv(i, a)) for a in AXES[e[1]]) for i in range(e[2], e[2] + e[3])))
        else: o.append(tok(e))
    return " ".join(o)
def ser_scenarios(ck):
    k = 1 if THOROUGH else 2
    return ck.tlc("SerView", {"Shard": SEED % k, "Shards": k, "Full": THOROUGH, "Emit": True}, ["Faithful", "Disjoint", "Emitted"], workers=4)

def c09():
    ck = Check("C09")
    exe = B.build("asan")
    cases = []
    for i, c in enumerate(scenarios(ck, "full" if THOROUGH else "quick", 3 if THOROUGH else 2)):
        t = arr_type(c); ev = ev_line(c["evs"])
        s = raw_lines(c) + ["new X rec"]
        k = i % 3
        if k == 0: s.append(f"visit A {t} {c['ro']} {c['rl']} X")
        elif k == 1: s.append(f"vnat A {t} {c['ro']} {c['rl']} X")
        else:  # the range as the consumer's own slice, the rest of it as visited range
            a = c["ro"] // 2 if i % 2 else c["ro"]
            s += [f"reslice A {a} {c['ro'] - a + c['rl']}", f"visit A {t} {c['ro'] - a} {c['rl']} X"]
        s.append("events X")
        cases.append(Case(f"{i}", s, ["visit 0", ev]))
    for i, c in enumerate(ser_scenarios(ck)):
        t = SERTYPE[(c["fmt"], c["txt"])]
        s = ser_lines(c) + ["new X rec"]
        if i % 3 == 2:
            a = c["ro"] // 2 if i % 2 else c["ro"]
            s += [f"reslice A {a} {c['ro'] - a + c['rl']}", f"visit A {t} {c['ro'] - a} {c['rl']} X"]
        else: s.append(f"visit A {t} {c['ro']} {c['rl']} X")
        cases.append(Case(f"ser-{i}", s + ["events X"], ["visit 0", plain_line(c["evs"], not c["txt"])]))
    ck.run(exe, cases, leaks=True)
    ck.finish()
