"""C24: C++ data type objects."""
from mbt import *
from types_ import flat, hx, one_of, rx

TEXTS = {1: "EPSG:4326", 2: '{"a":{"b":"}"}}', 3: 'x"y\\z', 4: "0123456789" * 6, 5: "4326", 6: "", 7: "0123456789012345678901234567890123456", 8: '"EPSG\\u003a4326"', 9: "01234567890123456789012345678901234567"}
KINDS = {2: "projjson", 3: "wkt2:2019", 4: "authority_code", 5: "srid"}
EDGES = ["planar", "spherical", "vincenty", "thomas", "andoyer", "karney"]
def crs(s): return "LONLAT" if s == "LONLAT" else hx(s)
def meta(o, i=0):
    """metadata text for an object, in one of several spellings"""
    m = {}
    if o["e"] or i % 2: m["edges"] = EDGES[o["e"]]
    if o["s"]:
        m["crs"] = json.loads(o["s"]) if o["s"].startswith("{") and i % 3 == 0 else o["s"]
        if o["r"] in KINDS: m["crs_type"] = KINDS[o["r"]]
    elif i % 5 == 0: m["crs"] = None
    if i % 7 == 3: m["more"] = {"x": ["}", "]"]}
    if not m and i % 4 == 0: return ""
    items = list(m.items())
    if i % 2: items.reverse()
    return json.dumps(dict(items), separators=(",", ":") if i % 3 == 0 else None)
def see(o):
    return f"dtsee t={o['t']} g={o['g']} d={o['d']} c={o['c']} nd={o['nd']} e={o['e']} r={o['r']} crs={crs(o['s'])} ext={o['ext']} meta={o['e']}/{o['r']}/{crs(o['s'])}"
def strs(o, x):
    if o["s"] == "LONLAT": return [], []
    return [f"dtstr {x}", f"dtstr {x} 10"], [f"dtstr {o['str']}", f"dtstr {o['str10']}"]
def start(c, i):
    f = c["first"]
    if f["t"] == 0: return ["dtnew X1"], ["dtnew ok"]
    if f["s"] == "LONLAT" : return [f"dtnew X0 {f['t']} {rx(meta(dict(f, r=0, s=''), i))}", "dtop X0 X1 lonlat 0", "dtdel X0"], ["dtnew ok", "dtop ok"]
    n = i % 4
    if n == 0: return [f"dtnew X1 {f['t']} {rx(meta(f, i // 4))}"], ["dtnew ok"]
    if n == 1: return [f"dtnew X0 {f['t']} {rx(meta(dict(f, r=0, s=''), i))}"] + ([f"dtop X0 X1 crs {f['r']} {rx(f['s'])}"] if f["s"] else ["dtop X0 X1 copy 0"]) + ["dtdel X0"], ["dtnew ok", "dtop ok"]
    if n == 2: return [f"dtnew X0 {f['t']} {rx(meta(dict(f, e=0), i))}", f"dtop X0 X1 e {f['e']}", "dtdel X0"], ["dtnew ok", "dtop ok"]
    return [f"dtnew X0 {f['t']} {rx(meta(f, i))}", f"dtop X0 X1 {'schema' if i % 8 == 3 else 'storage'} 0", "dtdel X0"], ["dtnew ok", "dtop ok"]

def history(cid, c, i):
    s, ex = start(c, i)
    n = 1
    objs = c["objs"]
    if len(c["log"]) > 1: s.append("dtnew X2"); ex.append("dtnew ok"); n = 2
    for l in c["log"]:
        w, v, x = l["w"], l["v"], f"X{l['k']}"
        if w == "end": continue
        if w == "drop": s.append(f"dtdel {x}")
        elif w == "assign": s.append(f"dtassign {x} X{l['j']}")
        elif w == "moveassign": s.append(f"dtmove {x} X{l['j']}")
        else:
            y = f"X{n + 1}"
            if l["ok"]: n += 1
            a = f"crs {v % 10} {rx(TEXTS[v // 10])}" if w == "crs" else f"{w} {v}"
            s.append(f"dtop {x} {y} {a}"); ex.append("dtop ok" if l["ok"] else "dtop refused")
    assert n == len(objs)
    for k, o in enumerate(objs, 1):
        if o["t"] == -1: continue
        s.append(f"dtsee X{k}"); ex.append(see(o))
        a, b = strs(o, f"X{k}"); s += a; ex += b
    if len(c["log"]) == 1 and n == 2:
        s += ["dtdel X1", "dtsee X2"]; ex.append(see(objs[1]))
    return Case(cid, s, ex)

INV = ["Proper", "Only", "Unmoved", "Laws", "Emitted"]
def c24():
    ck = Check("C24")
    exe = B.build("asan")
    n = 61
    sh = range(n) if THOROUGH else [(SEED * 7 + j * 23) % n for j in range(3)]
    jobs = [("DataTypes", {"Suite": "step", "Steps": 1, "Shard": k, "Shards": n, "Emit": True}, INV, {"workers": 2}) for k in sh]
    jobs += [("DataTypes", {"Suite": "walk", "Steps": m, "Shard": 0, "Shards": 1, "Emit": True}, INV, {"workers": 1, "sim": ((400, m + 1) if THOROUGH else (60, m + 1))}) for m in ((12, 20, 40) if THOROUGH else (12, 20))]
    cases = []
    for (_, k, *_), r in zip(jobs, ck.tlc_many(jobs, 4)):
        for i, c in enumerate(r): cases.append(history(f"{k['Suite']}{k['Steps']}.{k['Shard']}-{i}", c, i + SEED))
    # what an object shows of itself as a schema, and what schemas and texts objects are made of
    facts = {e["x"]["t"]: e["x"] for e in ck.tlc("TypeWalk", {"Emit": True}, ["Known", "Readable", "Separated", "Emitted"]) if e["kind"] == "facts"}
    i = 0
    for t, f in sorted(facts.items()):
        if not t: continue
        for e, r, s in [(0, 0, ""), (i % 5 + 1, 0, ""), (0, i % 4 + 2, "EPSG:4326"), (2, 1, '{"a":"\\""}'), (i % 6, i % 5 + 1, 'x"y')]:
            i += 1
            o = {"t": t, "g": f["g"], "d": f["d"], "c": f["c"], "nd": f["nd"] or -1, "e": e, "r": r, "s": s, "ext": f["ext"]}
            m = {}
            if e: m["edges"] = EDGES[e]
            sc, ex = [f"dtnew X {t} {rx(meta(o, i))}", "dtschema X A 0", "dtdel X", "sview A", "dtfrom Y A", "dtsee Y"], ["dtnew ok", "dtschema ok"]
            want = f"sview t={t} g={f['g']} d={f['d']} c={f['c']} ext={f['ext']} meta="
            ex += [want, "dtfrom ok", see(o)]
            sc += ["dtschema Y B 1", f"sview B {hx(f['ext'])}", f"dtfrom Z B {hx(f['ext'])} {rx(meta(o, i + 1))}", "dtsee Z", "dtfrom U B"]
            ex += ["dtschema ok", want + "none", "dtfrom ok", see(o), "dtfrom refused"]
            if r == 0 and e == 0: sc += ["tschema C %d 1" % t, "dtfrom V C", "dtsee V"]; ex += ["tschema " + flat(f["tree"]), "dtfrom ok", see(o)]
            # text and extension names that say nothing
            for bad in ("foofy", "{", "[]", '{"edges":"x"}', '{"crs":[]}'): sc.append(f"dtnew W {t} {rx(bad)}"); ex.append("dtnew refused")
            other = [x for x in ("geoarrow.point", "geoarrow.wkb", "geoarrow.wkt", "geoarrow.multipolygon", "geoarrow.box", "", "geoarrow.geometry") if not same(t, x, facts)]
            for x in other: sc.append(f"dtfrom W B {hx(x)} -"); ex.append("dtfrom refused")
            cases.append(Case(f"k{t}.{i}", sc, prefixed(ex)))
    ids = set(facts)
    cand = set(range(-3, 20)) | {990 + 1000 * k for k in range(-1, 25)} | {1000 * k + g for k in range(25) for g in range(0, 9)} | set(range(99990, 100020)) | {2147483647, -2147483648, -9999}
    bad = sorted(c for c in cand if (c not in ids or c == 0) and 0 <= c < 131072)
    cases.append(Case("bad", [f"dtnew X {t} -" for t in bad], ["dtnew refused"] * len(bad)))
    comb = [(g, d, c) for g in (*range(0, 10), 989, 990, 991, 1001) for d in range(8) for c in range(4)]
    ok = {(f["g"], f["d"], f["c"]) for f in facts.values() if f["d"]}
    cases.append(Case("parts", [f"dtnew X {g} {d} {c} -" for g, d, c in comb], ["dtnew " + ("ok" if x in ok else "refused") for x in comb]))
    cases.append(Case("consts", ["dtconst"], ["dtconst 100001 100003 990 1 2 3"]))
    code = {(f["g"], f["d"], f["c"]): t for t, f in facts.items() if f["d"]}
    ex = []
    for g in range(1, 7):
        for d in range(1, 5):
            a, b = code[g, d, 1], code[g, d, 2]
            ex += [f"dttrait {a} {a} {b}", f"dttrait {a} {g} {d} 1", f"dttrait {b} {g} {d} 2"]
    cases.append(Case("traits", ["dttraits"], ex))
    ck.run(exe, cases, leaks=True)
    ck.finish()

def same(t, ext, facts):
    """a type laid out like t (the names of lists say nothing) has this extension name"""
    sig = lambda u: (facts[u]["d"], facts[u]["c"], facts[u]["g"] == 990, facts[u]["lv"]) if facts[u]["d"] else flat(facts[u]["tree"])
    return any(f["ext"] == ext and sig(u) == sig(t) for u, f in facts.items() if u)
def prefixed(ex):
    return lambda got: len(got) == len(ex) and all(g == x or (x.endswith("meta=") and g.startswith(x)) for g, x in zip(got, ex))
