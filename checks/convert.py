"""C08: chains of conversions (spec/Convert.tla)."""
from mbt import *
from kernels import nat_type
SER = (100001, 100002, 100003, 100004)
def ev_text(evs):
    f = lambda co: ",".join("nan" if x == -1 else str(x) for x in co)
    return "events" + "".join(" " + (f"gs:{e[1]}:{e[2]}" if e[0] == "gs" else f"c:{len(e[1][0])}:" + ";".join(map(f, e[1])) if e[0] == "v" else e[0]) for e in evs)
def type_of(e, h): return {"wkb": 100001, "wkt": 100003}.get(e["e"]) or nat_type(e["k"], e["d"], h % 2 == 1)
def fin_show(a, t, evs, n, s, ex):
    s += ["clear R", f"visit {a} {t} 0 {n} R", "events R", f"sound {a} {t}"]
    ex += ["visit 0", ev_text(evs), "sound"]
def source(c, h, s, ex):
    """the array a chain starts from: what the first encoding's own writer makes, or one made by hand"""
    e = c["path"][0]
    if e["e"] != "nat" and h % 3:
        t = {"wkb": (100001, 100002), "wkt": (100003, 100004)}[e["e"]][h % 2]
        it = [(wkb_bytes(x) if e["e"] == "wkb" else wkt_text(x).encode()).hex() if x else "null" for x in c[e["e"]]]
        s.append(" ".join([f"mkser A0 {t}", *it])); return t
    t = type_of(e, h // 2)
    s.append(("new W0 wkb", "new W0 wkt 16 %d" % (h // 4 % 2))[e["e"] == "wkt"] if e["e"] != "nat" else f"new W0 {('nat', 'arr')[h % 2]} {t}")
    if e["e"] == "nat": ex.append("new 0")
    s += [f"ev W0 {h % 6} {toks(c['evs'])}", "fin W0 A0"]; ex += ["ev 0", "fin 0"]
    if h % 5 == 0: s.append("reset W0")
    return t
def convert(m, a, t, e, n, h, s, ex):
    """array a of type t to encoding e as array A{m}"""
    t2 = type_of(e, h // 3)
    b, how = f"A{m}", h % 6
    if how in (0, 1):
        w = (f"new W{m} wkb", f"new W{m} wkt 16 {h // 6 % 2}")[e["e"] == "wkt"] if e["e"] != "nat" else f"new W{m} nat {t2}"
        if how == 1: w = f"new W{m} arr {t2}" + (f" 16 {h // 6 % 2}" if e["e"] == "wkt" else "")
        s.append(w)
        if how == 1 or e["e"] == "nat": ex.append("new 0")
        cut = h // 12 % (n + 1) if h % 4 else n                 # the rows in one or two visits
        s += [f"visit {a} {t} 0 {cut} W{m}"] + ([f"visit {a} {t} {cut} {n - cut} W{m}"] if cut < n else [])
        ex += ["visit 0"] * (1 if cut == n else 2)
        s.append(f"fin W{m} {b}"); ex.append("fin 0")
        if h % 7 < 3: s.append(f"reset W{m}")
        return [(b, n)], t2
    k = "as_geoarrow" if e["e"] != "wkt" or how < 4 else "format_wkt"
    s += [f"knew K{m} {k}", f"kstart K{m} {t} {'type=%d' % t2 if k == 'as_geoarrow' else '-'} -"]
    ex.append(lambda l: l.startswith("kstart 0 "))
    s.append(f"kpush K{m} {a} {b}"); ex.append("kpush 0")
    if h % 5 < 2: s.append(f"rel {a}")
    s.append(f"kfin K{m} -"); ex.append("kfin 0")
    return [(b, n)], t2
def chain(cid, c, i):
    h = (i * 2654435761 + SEED * 40503) % 1000003
    s, ex = ["new R rec"], []
    n = c["n"]
    t = source(c, h, s, ex)
    fin_show("A0", t, c["path"][0]["evs"], n, s, ex)
    for m, e in enumerate(c["path"][1:], 1):
        h = h // 7 + m * 7919 + i
        _, t = convert(m, f"A{m - 1}", t, e, n, h, s, ex)
        fin_show(f"A{m}", t, e["evs"], n, s, ex)
    def expect(got):
        if len(got) != len(ex): return [x if isinstance(x, str) else "?" for x in ex]
        return all(x(g) if callable(x) else g == x for g, x in zip(got, ex)) or [x if isinstance(x, str) else "?" for x in ex]
    return Case(cid, s, expect, " > ".join(e["e"] + (f"{e['k']}.{e['d']}" if e["k"] else "") for e in c["path"]))

INV = ["Same", "Settled", "Promoted", "Emitted"]
def c08():
    ck = Check("C08")
    exe = B.build("asan")
    n = 41
    sh = range(n) if THOROUGH else [(SEED * 7 + j * 17) % n for j in range(5)]
    jobs = [("Convert", {"Suite": "pair", "Steps": 2, "Shard": k, "Shards": n, "Emit": True}, INV, {"workers": 2}) for k in sh]
    jobs += [("Convert", {"Suite": "rows", "Steps": m, "Shard": k, "Shards": 5, "Emit": True}, INV, {"workers": 1, "sim": (800 if THOROUGH else 120, m + 2)})
             for m, k in ([(m, k) for m in (3, 4, 6) for k in range(5)] if THOROUGH else [(3, SEED % 5), (5, (SEED + 2) % 5)])]
    cases = []
    for (_, k, *_), r in zip(jobs, ck.tlc_many(jobs, 4)):
        for i, c in enumerate(r): cases.append(chain(f"{k['Suite']}{k['Steps']}.{k['Shard']}-{i}", c, i))
    ck.run(exe, cases, leaks=True)
    ck.finish()
