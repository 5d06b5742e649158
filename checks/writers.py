"""C02 C03 C04 C10 C14: the array writers against spec/Writers.tla."""
from mbt import *
INV = ["WkbCorrect", "WktCorrect", "NatCorrect", "Structure", "Balanced", "Emitted"]
def suites(ck, names):
    jobs = [("Writers", {"Suite": n, "Shard": 0, "Shards": 1, "Emit": True}, INV) for n in names]
    return dict(zip(names, ck.tlc_many(jobs)))

def split_batches(evs):
    out, cur = [], []
    for e in evs:
        if e[0] == "fin": out.append(cur); cur = []
        else: cur.append(e)
    return out

def visitor_case(cid, c, new, typ, layout, expect, info=None, newline=False):
    """deliver events to a writer, finishing where the scenario says; look at every
    finished array only after the writer has been destroyed"""
    s, e = [new], (["new 0"] if newline else [])
    bs = split_batches(c["evs"])
    for i, b in enumerate(bs):
        if b: s.append(f"ev W {layout} {toks(b)}"); e.append("ev 0")
        s.append(f"fin W A{i}"); e.append("fin 0")
    s.append("reset W")
    for i in range(len(bs)):
        s.append(f"show A{i} {typ}"); e.append(expect(c["batches"][i]))
    return Case(cid, s, e, info)

def gen_writer(k, typ, opts=""):
    """the generic writer, made from a type, from a schema, or by the C++ class in its three ways"""
    k %= 5
    if k < 2: return f"new W arr{'s' * k} {typ}" + (f" 16 {opts}" if opts != "" else "")
    return f"new W pp {typ} {k - 2}" + (f" 16 {opts}" if opts != "" else "")

def features(evs):
    out, cur = [], []
    for e in evs:
        if e[0] == "fin": continue
        cur.append(e)
        if e[0] == "fe": out.append(cur); cur = []
    return out

def append_case(cid, c, new, typ, glayout, expect, newline=False, via="hand"):
    """whole-geometry appends of hand-built nodes"""
    s, e = [new], (["new 0"] if newline else [])
    for i, b in enumerate(split_batches(c["evs"])):
        for j, f in enumerate(features(b)):
            if len(f) == 3 and f[1][0] == "nul": s.append("appnull W"); e.append("app 0")
            else:
                s += [f"hand H {glayout} {toks(f)}", "app W H", "handfree H"]; e.append("app 0")
        s.append(f"fin W A{i}"); e.append("fin 0")
    s.append("reset W")
    for i in range(len(c["batches"])):
        s.append(f"show A{i} {typ}"); e.append(expect(c["batches"][i]))
    return Case(cid, s, e)

def nat_type(kind, d, inter): return kind + (d - 1) * 1000 + (10000 if inter else 0)

def c02():
    ck = Check("C02")
    exe = B.build("asan")
    S = suites(ck, ["single", "coll", "big", "seq", "nulls"])
    cases = []
    for n, cs in S.items():
        for i, c in enumerate(cs):
            lay = (0, 1, 2, 3) if THOROUGH else ((i + SEED) % 4,)
            for l in lay: cases.append(visitor_case(f"{n}-{i}-v{l}", c, "new W wkb", 100001, l, lambda b: show_wkb(b["wkb"])))
            if THOROUGH or i % 4 == 0:
                for k in (range(5) if THOROUGH else (i // 4 + SEED,)):
                    cases.append(visitor_case(f"{n}-{i}-a{k}", c, gen_writer(k, 100001), 100001, i % 3, lambda b: show_wkb(b["wkb"]), newline=True))
            for l in (range(10) if THOROUGH else ((i + SEED) % 10,)):
                cases.append(append_case(f"{n}-{i}-g{l}", c, "new W wkb", 100001, l, lambda b: show_wkb(b["wkb"])))
    ck.run(exe, cases, leaks=True)
    ck.finish()

def c03():
    ck = Check("C03")
    exe = B.build("asan")
    std = B.build("std")
    S = suites(ck, ["single", "coll", "big", "seq", "nulls"])
    cases = []
    for n, cs in S.items():
        for i, c in enumerate(cs):
            for flat in (0, 1):
                k = "wktf" if flat else "wktn"
                for l in ((0, 1, 2, 3) if THOROUGH else ((i + flat + SEED) % 4,)):
                    cases.append(visitor_case(f"{n}-{i}-{k}{l}", c, f"new W wkt 16 {flat}", 100003, l, lambda b, k=k: show_wkt(b[k])))
                if THOROUGH or i % 4 == 0:
                    for a in (range(5) if THOROUGH else (i // 4 + flat + SEED,)):
                        cases.append(visitor_case(f"{n}-{i}-a{a}{k}", c, gen_writer(a, 100003, flat), 100003, i % 3, lambda b, k=k: show_wkt(b[k]), newline=True))
    # long text: many digits per ordinate at every precision (integers print as integers)
    for i, c in enumerate(S["big"]):
        for j, k in enumerate(((0, 13), (1, 15), (6, 13), (15, 14), (16, 15), (3, 0)) if THOROUGH else ((0, 13), ((i + SEED) % 16, 13 + i % 3))):
            v = visitor_case(f"long-{i}-{j}", c, f"new W wkt {k[0]} {i % 2}", 100003, i % 4,
                             lambda b, f=i % 2, z=k[1] - 12: show_ser(b["wktf" if f else "wktn"], lambda t: wkt_text(t, "0" * (z + 9)).encode()))
            v.script.insert(0, f"scale 1e{k[1] - 3}")
            cases.append(v)
    ck.run(exe, cases, leaks=True)
    sub = [Case("std-" + c.id, c.script, c.expect) for i, c in enumerate(cases) if THOROUGH or i % 5 == 0]
    ck.run(std, sub)
    ck.finish()

def nat_cases(n, i, c, dsts, cases, ck, app=True):
    for kind in c["kinds"]:
        for dst in dsts:
            for inter in ((False, True) if THOROUGH else ((i + kind + SEED) % 2 == 0,)):
                t = nat_type(kind, dst, inter)
                ev = lambda b, k=kind, d=dst: show_nat(b["nat"][k - 1], d)
                ap = lambda b, k=kind, d=dst: show_nat(b["napp"][k - 1], d)
                cases.append(visitor_case(f"{n}-{i}-n{t}", c, f"new W nat {t}", t, (i // 2 + kind) % 4, ev, newline=True))
                if THOROUGH or i % 5 == 0:
                    for k in (range(5) if THOROUGH else (i // 5 + kind + SEED,)):
                        cases.append(visitor_case(f"{n}-{i}-a{k}-{t}", c, gen_writer(k, t), t, (i // 2 + kind + 1) % 4, ev, newline=True))
                if app:
                    l = (i + kind + SEED) % 10
                    cases.append(append_case(f"{n}-{i}-g{t}", c, f"new W nat {t}", t, l, ap, newline=True))

def c04():
    ck = Check("C04")
    exe = B.build("asan")
    S = suites(ck, ["single", "big", "seq", "nulls", "dims"])
    cases = []
    for n, cs in S.items():
        for i, c in enumerate(cs):
            d = next((it[0]["d"] for it in c["items"] if it), 1)
            nat_cases(n, i, c, (d,), cases, ck)
    ck.run(exe, cases, leaks=True)
    ck.finish()

# ------------------------------------------------------------------ raw builder histories
def builder_contents(k, inter, d, c):
    """hex per buffer for a content version emitted by Builder.tla"""
    n = c["len"]
    bits = bytearray((n + 7) // 8)
    for i, v in enumerate(c["valid"]):
        if v: bits[i // 8] |= 1 << (i % 8)
    bufs = [bytes(bits)]
    for o in c["offs"]: bufs.append(struct.pack(f"<{len(o)}i", *o))
    rows = [tuple(float(x) for x in t) for t in coord_list(c["coords"], d)]
    if inter: bufs.append(b"".join(struct.pack("<d", x) for r in rows for x in r))
    else:
        for j in range(NV[d]): bufs.append(b"".join(struct.pack("<d", r[j]) for r in rows))
    return bufs

def strip_nulls(ls): return [re.sub(r" nulls=-?\d+", "", l) for l in ls]

def builder_new(n, t):
    """a builder made from a type or a schema, fed by appending or by reserving first, or the C++ class"""
    if n % 8 > 4: return [f"bnewpp B {t} {n % 8 - 5}"], ["bnew 0"]
    return [f"bnew{'schema' * (n % 3 == 0)} B {t}"] + [f"bmode B {n % 8 - 2}"] * (n % 8 > 2), ["bnew 0"]

def builder_cases(kind, inter, hists, tag, frees):
    out = []
    for n, h in enumerate(hists):
        d = h["d"]; t = nat_type(kind, d, inter)
        cont = [None if v == 0 else builder_contents(kind, inter, d, h["content"][v]) for v in range(3)]
        nb = len(cont[1])
        s, e = builder_new(n, t)
        narr, loose = 0, False
        def freed(ids, loose=False):
            if frees: s.append("freed"); e.append("freed" + "".join(f" {i}" for i in sorted(ids)))
        def app(i, v):
            if 0 < i <= nb - 1 - (1 if inter else NV[d]) and n % 2:
                o = h["content"][v]["offs"][i - 1]
                m = len(o) // 2
                for part in (o[:m], o[m:]):
                    if part: s.append(f"boffs B {i-1} " + ",".join(map(str, part))); e.append("boffs 0")
            else:
                b = cont[v][i]; m = (len(b) // 2) // 8 * 8
                for part in (b[:m], b[m:]) if n % 2 else (b,):
                    s.append(f"bapp B {i} {part.hex() or '-'}"); e.append("bapp 0")
        for k, op in enumerate(h["hist"]):
            o, v = op["op"], op["v"]
            if o == "own": s.append(f"bown B {op['i']} {cont[v][op['i']].hex()} {op['id']}"); e.append("bown 0")
            elif o == "ownall":
                for i in range(nb): s.append(f"bown B {i} {cont[v][i].hex()} {op['id'] + i}"); e.append("bown 0")
            elif o == "app": app(op["i"], v)
            elif o == "appall":
                rows = h["content"][v]
                order = list(range(nb)) if n % 2 else list(reversed(range(nb)))
                # the coordinate appender is not mixed with owned buffers in one batch
                rest = [x["op"] for x in h["hist"][k + 1:]]
                pure = not any(x.startswith("own") for x in rest[:next((j for j, x in enumerate(rest) if "fin" in x), len(rest))])
                if n % 4 < 2 and pure and not any(r[0] < 0 for r in rows["coords"]):
                    nd = 1 if inter else NV[d]
                    for i in order:
                        if i < nb - nd: app(i, v)
                    for st, cnt, sd in rows["coords"]:
                        # the harness starts at element 1 of an odd layout
                        lay = n % 3
                        s.append(f"bcoords B {sd} {st - lay % 2} {cnt} {lay}"); e.append("bcoords 0")
                else:
                    for i in order: app(i, v)
            elif o == "fin": s.append(f"bfin B A{narr}"); e.append("bfin 0"); narr += 1
            elif o == "badfin":
                # outcome unspecified: only ownership is followed
                s += [f"bfin B A{narr}", "breset B", f"rel A{narr}"]; e.append("?"); narr += 1
            elif o == "reset": s.append("breset B")
            elif o == "rel": s.append(f"rel A{op['i'] - 1}")
            elif o == "show":
                c = dict(h["content"][v]);
                if not op["id"]: c["valid"] = [1] * c["len"]
                s.append(f"show A{op['i'] - 1} {t}"); e.append(show_nat(c, d))
            freed(op["freed"])
        r = dict(h, **h["rest"])
        if r["alive"]: s.append("breset B"); freed(r["buf"])
        for j, al in enumerate(r["arralive"]):
            if al: s.append(f"rel A{j}"); freed(r["arrs"][j])
        e2 = strip_nulls(e)
        def exp(got, e2=e2):
            if got is None: return False
            g = strip_nulls(got)
            if len(g) != len(e2): return e2
            return True if all(b == "?" and a.startswith("bfin") or a == b for a, b in zip(g, e2)) else e2
        out.append(Case(f"{tag}-{kind}{'i' if inter else 's'}-{n}", s, exp))
    return out

BINV = ["ExactlyOne", "DisjointOwners", "FreshAfterFin", "FreedOnce", "Emitted"]
BTYPES = [(1, False), (2, True), (3, False), (4, False), (5, True), (6, False), (6, True), (1, True)]
def builder_histories(ck, frees, keep, tag="bld"):
    import random
    rnd = random.Random(SEED)
    jobs = []
    for k, i in BTYPES:
        jobs.append(("Builder", {"Kind": k, "Inter": i, "MaxLen": 4, "Emit": False}, BINV))
        jobs.append(("Builder", {"Kind": k, "Inter": i, "MaxLen": 10, "Emit": True}, BINV, {"sim": (600 if THOROUGH else 120, 12)}))
    R = ck.tlc_many(jobs, 8)
    cases = []
    for (k, i), h in zip(BTYPES, R[1::2]):
        h = rnd.sample(h, min(keep, len(h)))
        # the smoke rule of thumb: keep histories that end with something to look at
        cases += builder_cases(k, i, h, tag, frees)
    return cases

def c10():
    ck = Check("C10")
    exe = B.build("asan")
    S = suites(ck, ["batch", "batchbig"])
    cases = []
    for n, cs in S.items():
        for i, c in enumerate(cs):
            w = (i + SEED) % 5
            def want(x): return THOROUGH or n == "batchbig" or w == x
            if want(0) or i % 7 == 0: cases.append(visitor_case(f"{n}-{i}-wkb", c, "new W wkb", 100001, i % 3, lambda b: show_wkb(b["wkb"])))
            if want(1): cases.append(append_case(f"{n}-{i}-wkbg", c, "new W wkb", 100001, i % 10, lambda b: show_wkb(b["wkb"])))
            if want(2) or i % 7 == 1: cases.append(visitor_case(f"{n}-{i}-wkt", c, "new W wkt 16 0", 100003, i % 3, lambda b: show_wkt(b["wktn"])))
            if want(3): cases.append(visitor_case(f"{n}-{i}-arr", c, gen_writer(i // 5 + SEED, 100001), 100001, i % 3, lambda b: show_wkb(b["wkb"]), newline=True))
            if want(4): cases.append(visitor_case(f"{n}-{i}-arrt", c, gen_writer(i // 5 + SEED, 100003, 1), 100003, i % 3, lambda b: show_wkt(b["wktf"]), newline=True))
            d = next((it[0]["d"] for it in c["items"] if it), 1)
            nat_cases(n, i, c, (d,), cases, ck)
    ck.run(exe, cases, leaks=True)
    ck.run(exe, builder_histories(ck, False, 400 if THOROUGH else 120), leaks=True)
    ck.finish()

def dims_cases(hs):
    out = []
    for n, h in enumerate(hs):
        if not h["batches"]: continue
        d, inter = h["target"], h["inter"]
        t = nat_type(1, d, inter)
        s, e = builder_new(n, t)
        for b in h["batches"]:
            s.append(f"bcoords B {b['s']} {b['start'] - b['lay'] % 2} {b['n']} {b['lay']}"); e.append("bcoords 0")
        s += ["bfin B A", f"show A {t}"]; e.append("bfin 0")
        rows = ";".join(",".join("nan" if x == 0 else str(x) for x in r) for r in h["rows"])
        e.append(f"arr len={len(h['rows'])} valid={'1' * len(h['rows'])} offs= coords={rows}")
        for sd in range(1, 5):
            s.append(f"mapdims {sd} {d}"); e.append("map " + " ".join(map(str, h["map"][sd - 1])))
        b = h["batches"]
        if len(b) == 1:
            # the harness copies elements 1..n of coordinates numbered from 0
            rr = ["nan"]; sent = ",".join(["-999"] * NV[d])
            rows1 = [",".join("nan" if x == 0 else str(x) for x in r) for r in h["rows"]]
            for dl in (0, 1):
                s.append(f"cvcopy {b[0]['s']} {d} {b[0]['n']} {b[0]['lay']} {dl}")
                e.append("cv " + ";".join([sent, sent] + rows1 + [sent]))
        out.append(Case(f"dm-{n}", s, lambda g, e=e: True if g is not None and strip_nulls(g) == e else e))
    return out

def copy_case(i, c):
    def rows(rs): return ";".join(",".join("nan" if x == 0 else str(x) for x in r) for r in rs)
    s, e = [f"hand H {c['lay']} {toks(c['evs'])}", f"copygen H {c['dst']} {c['out']}", "writeseq H"], []
    want = ["cg " + rows(c["rows"]), "ws" + "".join(f" {rows(q)}|" for q in c["seqs"])]
    # the same from an object that owns its nodes
    s += ["new G geom", f"ev G {c['lay'] % 4} {toks(c['evs'])}", f"copygen G {c['dst']} {c['out']}", "writeseq G"]
    s += ["new K geom", "gcopy shallow H K", f"copygen K {c['dst']} {c['out']}", "writeseq K"]
    return Case(f"copy-{i}", s, want + ["ev 0"] + want + ["gcopy 0"] + want, info=c["lay"])

def c14():
    ck = Check("C14")
    exe = B.build("asan")
    S = suites(ck, ["dims", "dims3"])
    cases = []
    for n, cs in S.items():
        for i, c in enumerate(cs): nat_cases(n, i, c, (1, 2, 3, 4), cases, ck)
    ck.run(exe, cases, leaks=True)
    n = 4 if THOROUGH else 8
    jobs = [("CoordCopy", {"Shard": k, "Shards": n, "Turn": SEED + t, "Emit": True}, ["Meaning", "XYKept", "Whole", "NoHole", "Emitted"])
            for k in (range(n) if THOROUGH else [(SEED + j) % n for j in range(4)]) for t in (range(0, 10, 2) if THOROUGH else (0,))]
    copies = [c for cs in ck.tlc_many(jobs, 8) for c in cs]
    ck.run(exe, [copy_case(i, c) for i, c in enumerate(copies)], leaks=True)
    hs = ck.tlc("DimsMap", {"MaxBatches": 3 if THOROUGH else 2, "Emit": True}, ["Meaning", "XYKept", "NaNExactly", "Emitted"])
    ck.run(exe, dims_cases(hs), leaks=True)
    ck.finish()
