"""C15 C16 C17: bounded text, scalar kernels, aggregate kernels."""
from mbt import *

def has_empty_point(g): return (g["t"] == 1 and g["n"] == 0) or any(has_empty_point(k) for k in g["k"])
def empty_part(g): return 0 in g["r"] or any(not (k["n"] or k["r"] or k["k"]) or empty_part(k) for k in g["k"])
def any_empty_part(items): return any(i and empty_part(i[0]) for i in items)   # dropped by the native encoding
def any_empty_point(items): return any(i and has_empty_point(i[0]) for i in items)
def split_items(evs):
    out, cur = [], []
    for e in evs:
        cur.append(e)
        if e[0] == "fe": out.append(cur); cur = []
    return out
def build(name, src, evs):
    """script lines for an array of the given storage type holding the items of an event stream"""
    if src == "wkb": return [f"new w{name} wkb", f"ev w{name} 0 {toks(evs)}", f"fin w{name} {name}"]
    if src == "wkt": return [f"new w{name} wkt 16 0", f"ev w{name} 0 {toks(evs)}", f"fin w{name} {name}"]
    return [f"new w{name} nat {src}", f"ev w{name} {src % 3} {toks(evs)}", f"fin w{name} {name}"]
def built(src): return (["new 0"] if isinstance(src, int) else []) + ["ev 0", "fin 0"]
TYPEOF = {"wkb": 100001, "wkt": 100003}

# ---------------------------------------------------------------- C15
def expect_bounded(c, n_lines):
    def f(got):
        if len(got) != 3: return False
        if not got[0].startswith("evfeat"): return False
        stops = {}
        for t in got[0].split()[1:]:
            rc, at = t.split("@")
            if rc != "EAGAIN": return False
            stops[int(at)] = rc
        at, pos = 0, []
        for i, e in enumerate(c["evs"]):
            if e[0] == "fs": a = i
            if e[0] == "fe": pos.append((a, i))
        for (a, b), (lo, hi) in zip(pos, c["wins"]):
            s = [k for k in stops if a <= k <= b]
            if len(s) > 1 or (s and not (lo and lo - 1 <= s[0] and (hi == 0 or s[0] <= hi - 1))): return False
            if not s and hi: return False
        return got[1] == "fin 0" and got[2] == bounded_array(c["elems"])
    return f
def bounded_array(elems):
    return (f"arr len={len(elems)} nulls={elems.count([])} valid={''.join('1' if e else '0' for e in elems)} items="
            + ",".join(e[0].encode().hex() if e else "" for e in elems))
def c15():
    ck = Check("C15")
    exe = B.build("asan")
    n = 10
    pick = range(n) if THOROUGH else [(SEED + k) % n for k in (0, 3, 6)]
    jobs = [("Bounded", {"Suite": "small", "Shard": k, "Shards": n, "Emit": True}, ["Exact", "Prompt", "OneEach", "Emitted"], {"workers": 3}) for k in pick]
    m = 4 if THOROUGH else 12
    jobs += [("Bounded", {"Suite": "many", "Shard": k, "Shards": m, "Emit": True}, ["Exact", "Prompt", "OneEach", "Emitted"], {"workers": 3})
             for k in (range(m) if THOROUGH else [SEED % m])]
    cases = []
    for i, c in enumerate(x for r in ck.tlc_many(jobs, 3) for x in r):
        # the writer itself
        s = [f"new W wkt 16 {1 if c['flat'] else 0} {c['limit']}", f"evfeat W {i % 6} {toks(c['evs'])}", "fin W O", "show O 100003"]
        cases.append(Case(f"w{i}", s, expect_bounded(c, 3)))
        # the kernel, from several encodings and in one or two batches
        if not c["flat"]: continue
        srcs = ["wkt"] + ([] if any_empty_point(c["items"]) else ["wkb"] + ([] if any_empty_part(c["items"]) else [k + 10000 * (i % 2) for k in c["kinds"]]))
        src = srcs[i % len(srcs)]
        L = c["limit"]
        opts = "-" if L < 0 else f"max_element_size_bytes={L}"
        if i % 3 == 1: opts = (opts + "," if L >= 0 else "") + "precision=15"
        s = ["knew K format_wkt", f"kstart K {TYPEOF.get(src, src)} {opts} -"] + build("A", src, c["evs"])
        cut = i % (len(c["items"]) + 1)
        exp = ["kstart 0 fmt=u kids=0 ext=- meta=none"] + built(src)
        if cut in (0, len(c["items"])):
            s += ["kpush K A O", "show O 100003"]; exp += ["kpush 0", bounded_array(c["elems"])]
        else:
            n_it = len(c["items"])
            s += [f"reslice A 0 {cut}", "kpush K A O", "show O 100003", f"reslice A {cut} {n_it - cut}", "kpush K A P", "show P 100003"]
            exp += ["kpush 0", bounded_array(c["elems"][:cut]), "kpush 0", bounded_array(c["elems"][cut:])]
        cases.append(Case(f"k{i}", s + ["kfin K -", "krel K"], exp + ["kfin 0", "krel 1"]))
    ck.run(exe, cases, leaks=True)
    ck.finish()

# ---------------------------------------------------------------- C16
SRC = {"wkb": 100001, "lwkb": 100002, "wkt": 100003, "lwkt": 100004}
METAS = ["-", '{"crs":"EPSG:4326"}', '{"crs":{"a":[1,"b\\"c"],"n":null}}', '{"edges":"spherical"}', '{"edges":"spherical","crs":"OGC:CRS84"}', "{}"]
def nat_type(k, d, inter): return k + (d - 1) * 1000 + (10000 if inter else 0)
def typ(name, c): return SRC[name] if name in SRC else nat_type(c["k"], c["d"], name == "int")
def box_rows(rows, d):
    def r(x):
        if x[0] == "null": return "null"
        if x[0] == "empty": return "inf,inf,-inf,-inf"
        return ",".join(str(ordv(i, a)) for i, a in ((x[1], 1), (x[1], 2), (x[2], 1), (x[2], 2)))
    return f"box len={len(rows)} nulls={sum(x[0] == 'null' for x in rows)} " + "|".join(map(r, rows))
DAMAGE = {True: [lambda b: b + b" x", lambda b: b[:-1] if b[-1:] == b")" else b"POINT (", lambda b: b"PINT (1 2)", lambda b: b""],
          False: [lambda b: b[:-1], lambda b: b[:4], lambda b: b"\x01\x09\x00\x00\x00" + b[5:], lambda b: b""]}
def ser_array(name, c, o, i):
    txt = "wkt" in c["src"]
    items = []
    for j, t in enumerate(o["toks"]):
        b = (wkt_text(t).encode() if txt else wkb_bytes(t)) if t else None
        if o["damage"] and j == o["o"] + o["bad"] - 1:
            b = DAMAGE[txt][i % 3 if b else 3](b or b"")       # (a damaged null is an empty element)
        items.append("null" if b is None else (b.hex() or "-"))
    return [f"mkser {name} {SRC[c['src']]} " + " ".join(items)]
def scalar_case(i, c):
    kern, src_t = c["kern"], typ(c["src"], c)
    name = {"as_wkb": "as_geoarrow", "as_wkt": "as_geoarrow", "as_sep": "as_geoarrow", "as_int": "as_geoarrow"}.get(kern, kern)
    out_t = typ(kern[3:], c) if name == "as_geoarrow" else None
    meta = METAS[i % (3 if kern == "box" else len(METAS))]
    opts = f"type={out_t}" if out_t else "-"
    s = [f"knew K {name}", f"kstart K {src_t} {opts} {meta.encode().hex() if meta != '-' else '-'}"]
    e = []
    def start(l):
        if kern == "void" or kern == "visit_void_agg": return l.startswith("kstart 0 fmt=n kids=0 ext=- meta=none")
        if kern == "format_wkt": return l.startswith("kstart 0 fmt=u kids=0 ext=- meta=none")
        t = 990 if kern == "box" else out_t
        return l.startswith("kstart 0 ") and l.endswith(f" meta=same type={t}")
    e.append(start)
    for j, (o, lg) in enumerate(zip(c["ops"], c["log"])):
        a = f"A{j}"
        if o["toks"] or not o["evs"] and c["src"] in SRC:
            s += ser_array(a, c, o, i + j)
        else:
            s += [f"new W{j} nat {src_t}", f"ev W{j} {(i + j) % 4} {toks(o['evs'])}", f"fin W{j} {a}"]; e += ["new 0", "ev 0", "fin 0"]
        s.append(f"reslice {a} {o['o']} {o['n']}")
        if kern == "visit_void_agg": s.append(f"kpush K {a} -"); e.append("kpush 0" if lg == "ok" else "!0"); continue
        s.append(f"kpush K {a} O{j}")
        if lg == "error": e.append("!0"); continue
        e.append("kpush 0")
        if (i + j) % 3 == 0: s.append(f"rel {a}")           # the output must not depend on the input staying alive
        p = o["out"]
        if kern in ("format_wkt", "as_wkb", "as_wkt"):
            s.append(f"show O{j} {100001 if kern == 'as_wkb' else 100003}"); e.append(show_wkb(p) if kern == "as_wkb" else show_wkt(p))
        elif out_t: s.append(f"show O{j} {out_t}"); e.append(show_nat(p, c["d"]))
        elif kern == "box": s.append(f"showbox O{j}"); e.append(box_rows(p["rows"], c["d"]))
        else: s.append(f"shownull O{j}"); e.append(f"null len={p['len']} nulls={p['len']} bufs=0 kids=0")
    s += ["kfin K F", "shownull F"] if kern == "visit_void_agg" else ["kfin K -"]
    e += ["kfin 0", "null len=1 nulls=1 bufs=0 kids=0"] if kern == "visit_void_agg" else ["kfin 0"]
    if i % 2: s.append("krel K"); e.append("krel 1")
    return Case(f"{i}", s, matches(e), info={"kern": kern, "src": c["src"], "predicted": [x if isinstance(x, str) else "start" for x in e]})
def matches(e):
    def f(got):
        if len(got) != len(e): return False
        for g, x in zip(got, e):
            if callable(x): ok = x(g)
            elif x == "!0": ok = g.startswith("kpush ") and g != "kpush 0" and "!" not in g
            else: ok = g == x
            if not ok: return False
        return True
    return f
def start_cases():
    """starts that must be refused, and what is left of the kernel afterwards"""
    cs = []
    for n, (k, t, o, m) in enumerate([("as_geoarrow", "100001", "-", "-"), ("as_geoarrow", "100001", "type=0", "-"), ("as_geoarrow", "1", "type=999", "-"),
            ("as_geoarrow", "int", "type=1", "-"), ("format_wkt", "int", "-", "-"), ("box", "int", "-", "-"), ("unique_geometry_types_agg", "int", "-", "-"),
            ("box", "100003", "-", '{"edges":"spherical"}'), ("box_agg", "2", "-", '{"edges":"spherical","crs":"EPSG:4326"}'), ("visit_void_agg", "int", "-", "-")]):
        cs.append(Case(f"start{n}", [f"knew K {k}", f"kstart K {t} {o} {m.encode().hex() if m != '-' else m}"] + (["krel K"] if n % 2 else []),
                       lambda got: got[0].startswith("kstart ") and not got[0].startswith("kstart 0") and "!" not in "".join(got)))
    cs.append(Case("unknown", ["knew K no_such_kernel", "knew K box_aggregate"], lambda got: len(got) == 2 and all(l.startswith("knew ") and l != "knew 0" for l in got)))
    return cs
def c16():
    ck = Check("C16")
    exe = B.build("asan")
    m, progs = (8, 60) if THOROUGH else (4, 12)
    jobs = [("Kernels", {"Shard": k, "Shards": m, "Programs": progs, "Emit": True}, ["Mapped", "NoResidue", "SameLength", "Emitted"], {"workers": 3})
            for k in (range(m) if THOROUGH else [(SEED + k) % m for k in range(3)])]
    cases = start_cases()
    cases += [scalar_case(i, c) for i, c in enumerate(x for r in ck.tlc_many(jobs, 3) for x in r)]
    ck.run(exe, cases, leaks=True)
    ck.finish()

# ---------------------------------------------------------------- C17
def real(c): return {5000: float("nan"), 2000: float("inf"), -2000: float("-inf"), 1000: 1.7e308, -1000: -1.7e308}.get(c, c / 2)
def num(v):
    if v != v: return "nan"
    if v in (float("inf"), float("-inf")): return "inf" if v > 0 else "-inf"
    return str(int(v)) if v == int(v) and abs(v) < 1e15 else "%.17g" % v
def aggregate_case(i, c):
    val = lambda k, a: real(c["codes"][k][a - 1])
    items = [x["g"] for x in c["stream"]]
    no_empty_points = not any_empty_point(items)
    finite = c["mode"] not in (7, 8, 10)
    srcs = ["wkb", "lwkb"] + (["wkt", "lwkt"] if finite else [])
    if c["k"] and no_empty_points and not any_empty_part(items): srcs += ["sep", "int"] * 2
    src = srcs[(i // 3) % len(srcs)]
    kern = ("box_agg", "box", "unique_geometry_types_agg")[i % 3]
    # an empty point is a NaN coordinate in WKB: the documentation leaves it to the caller
    if kern.startswith("uni") and not no_empty_points and src in ("wkb", "lwkb"): src = "lwkt" if finite else None
    if src is None: kern, src = "box_agg", "wkb"
    t = typ(src, c)
    meta = METAS[i % 3]
    s, e = [f"knew K {kern}", f"kstart K {t} - {meta.encode().hex() if meta != '-' else '-'}"], []
    e.append(lambda l: l.startswith("kstart 0 ") and (l.endswith(" meta=same type=990") if "box" in kern else "fmt=i" in l and "ext=-" in l))
    n = len(items)
    bounds = sorted(set([0, n] + c["cuts"]))
    batches = list(zip(bounds, bounds[1:])) or [(0, 0)]
    if i % 5 == 0: batches.insert(i % (len(batches) + 1), (0, 0))
    whole = i % 4 == 1 and n                 # every batch a slice of one physical array
    def array(name, lo, hi):
        """rows lo..hi-1 of the stream between unused rows"""
        pre = [(lo - 1 - q) % n for q in range(c["pre"])][::-1] if n else []
        idx = pre + list(range(lo, hi)) + ([hi % n] if n and i % 2 else [])
        st = [c["stream"][j] for j in idx]
        if src in SRC:
            it = ["null" if not x["g"] else (wkb_bytes(x["wkb"], val) if "wkb" in src else wkt_text(x["wkt"], "", lambda k, a: num(val(k, a))).encode()).hex() for x in st]
            return [f"mkser {name} {SRC[src]} " + " ".join(it)], len(pre)
        ev = []
        for x in st:
            for q in x["evs"]:
                ev.append("v:" + ";".join(",".join(num(val(k, a)) for a in AXES[q[1]]) for k in range(q[2], q[2] + q[3])) if q[0] == "c" and q[3] else tok(q))
        return [f"new W{name} nat {t}", f"ev W{name} {i % 4} " + " ".join(ev), f"fin W{name} {name}"], len(pre)
    if whole:
        l, pre = array("A", 0, n); s += l
        if src not in SRC: e += ["new 0", "ev 0", "fin 0"]
    cur = 0
    for b, (lo, hi) in enumerate(batches):
        if whole:
            s.append(f"reslice A {pre + lo - cur} {hi - lo}"); cur = pre + lo; a = "A"
        else:
            a = f"A{b}"; l, p = array(a, lo, hi); s += l + [f"reslice {a} {p} {hi - lo}"]
            if src not in SRC: e += ["new 0", "ev 0", "fin 0"]
        s.append(f"kpush K {a} {f'O{b}' if kern == 'box' else '-'}"); e.append("kpush 0")
        if not whole and b % 2: s.append(f"rel {a}")
        if kern == "box":
            rows = c["rows"][lo:hi]
            s.append(f"showbox O{b}")
            e.append(f"box len={len(rows)} nulls={rows.count([])} " + "|".join(",".join(num(real(v)) for v in r[0]) if r else "null" for r in rows))
    s.append("kfin K " + ("-" if kern == "box" else "R")); e.append("kfin 0")
    if kern == "box_agg": s.append("showbox R"); e.append("box len=1 nulls=0 " + ",".join(num(real(v)) for v in c["box"]))
    if kern.startswith("uni"):
        s.append("showint R")
        want = sorted(c["types"])
        e.append(lambda l: (m := re.fullmatch(r"int len=(\d+) nulls=0 (.*)", l)) is not None and int(m[1]) == len(want) and sorted(map(int, filter(None, m[2].split(",")))) == want)
    return Case(f"{i}", s, matches(e), info={"kern": kern, "src": src, "predicted": [x if isinstance(x, str) else "?" for x in e]})
def c17():
    ck = Check("C17")
    exe = B.build("asan")
    m, seeds = (8, 300) if THOROUGH else (4, 50)
    jobs = [("Aggregates", {"Shard": k, "Shards": m, "Seeds": seeds, "Emit": True}, ["OrderFree", "RowBoxes", "IsOrder", "Emitted"], {"workers": 3})
            for k in (range(m) if THOROUGH else [(SEED + k) % m for k in range(4)])]
    cases = [aggregate_case(i, c) for i, c in enumerate(x for r in ck.tlc_many(jobs, 3) for x in r)]
    ck.run(exe, cases, leaks=True)
    ck.finish()
