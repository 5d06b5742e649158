"""C18 C19: the type algebra, and schemas."""
from mbt import *

def flat(t): return f"{t['f']}|{t['n']}|{len(t['k'])}" + "".join(";" + flat(k) for k in t["k"])
def shape(t): return f"{t['b']}/{len(t['k'])}" + "".join(";" + shape(k) for k in t["k"])
def hx(s): return s.encode().hex() or "-"
META = ["", '{}', '{"crs":"x"}', '{"edges":"spherical","crs":{"a":1}}', '{"unknown":[1,2]}']
def viewed(r, g, d, c, ext, meta): return f"sview t={r} g={g} d={d} c={c} ext={ext} meta={meta}"
def mt(s): return "none" if s is None else s.encode().hex() or "empty"

def c18():
    ck = Check("C18")
    exe = B.build("asan")
    out = ck.tlc("TypeWalk", {"Emit": True}, ["Known", "Inverse", "Unsupported", "OneOnly", "Identity", "Readable", "Separated", "Emitted", "NamesEmitted"])
    cases, ids = [], set()
    for i, e in enumerate(out):
        x = e["x"]
        if e["kind"] == "names":
            for w in x:
                cases.append(Case(f"n{w}", [f"tname {w} {v}" for v, _ in x[w]], [f"tname {n}" for _, n in x[w]]))
        elif e["kind"] == "step":
            cases.append(Case(f"s{i}", [f"tstep {x['from']} {x['w']} {x['v']}"], [f"tstep {x['t']}"]))
        else:
            t, native = x["t"], x["d"] != 0
            ids.add(t)
            s, ex = [f"tfacts {t}"], [f"tfacts {x['g']} {x['d']} {x['c']} {x['ext']} remake={t if native else 0}"]
            if t:
                tree = flat(x["tree"])
                s += [f"tschema A {t} 0", f"tschema B {t} 1", f"tview {t}"]
                ex += [f"tschema {tree}", f"tschema {tree}", f"tview t={t} g={x['g']} d={x['d']} c={x['c']} ext={x['ext']} meta=none"]
                if native:
                    s += [f"tshape {t}"]; ex += ["tshape " + shape(x["shape"])]
                    if x["g"] != 990: s += [f"taview {t}"]; ex += [f"taview lists={x['lv']} dims={x['nd']} type={t}"]
            cases.append(Case(f"f{t}", s, ex))
    # identifiers that are none: whatever components are read off them never make up another type
    cand = set(range(-1100, 22001)) | set(range(99000, 101100)) | {2147483647, -2147483648, -10000, -9999, -99999, 110001, 200001, 90001, 90990, 91001}
    bad = sorted(c for c in cand if c not in ids and c != 0)
    for k in range(0, len(bad), 200):
        part = bad[k:k + 200]
        s, ex = [], []
        for t in part: s += [f"tremake {t}"]; ex += ["tremake 0"]
        for t in (part if THOROUGH else part[SEED % 7::7]): s += [f"tschema A {t} 0", f"tschema B {t} 1"]; ex += ["tschema refused"] * 2
        cases.append(Case(f"b{k}", s, ex))
    ck.run(exe, cases, leaks=True)
    ck.finish()

def c19():
    ck = Check("C19")
    exe = B.build("asan")
    n = 24
    jobs = [("SchemaMut", {"Edits": 2, "Shard": k, "Shards": n if THOROUGH else 60, "Emit": True}, ["Sound", "Unmoved", "Canonical", "Emitted"], {"workers": 4})
            for k in (range(n) if THOROUGH else [SEED % 60])]
    facts = {}
    for e in ck.tlc("TypeWalk", {"Emit": True}, ["Known", "Readable", "Separated", "Emitted"]):
        if e["kind"] == "facts": facts[e["x"]["t"]] = e["x"]
    cases = []
    for t, f in facts.items():      # what the library itself produces
        if not t: continue
        want = (t, f["g"], f["d"], f["c"], f["ext"])
        s = [f"tschema A {t} 1", "sview A", f"tschema B {t} 0", f"sview B {hx(f['ext'])}", "sview B", f"sview A {hx(f['ext'])}"]
        tr = "tschema " + flat(f["tree"])
        cases.append(Case(f"p{t}", s, [tr, viewed(*want, mt("{}")), tr, viewed(*want, "none"), "sview refused", viewed(*want, mt("{}"))]))
    seen = set()
    for r in ck.tlc_many(jobs, 2):
        for c in r:
            key = (flat(c["tree"]), c["ext"])
            if key in seen: continue
            seen.add(key)
            i = len(seen)
            tree, ext, t = key[0], c["ext"], c["r"]
            meta = None if i % 6 == 5 else META[i % 5]
            s = [f"smk A {tree} {hx(ext)} {'~' if meta is None else hx(meta)}" + (" first" if i % 2 and meta else ""), "sview A"]
            ok = lambda m: "sview refused" if not t else viewed(t, facts[t]["g"], facts[t]["d"], facts[t]["c"], ext, m)
            ex = [ok(mt(meta))]
            # the extension name given apart: the one in the schema does not matter
            s += [f"smk B {tree} {['~', hx('geoarrow.point'), hx('other')][i % 3]} {'~' if meta is None else hx(meta)}", f"sview B {hx(ext)}"]
            ex.append(ok(mt(meta)))
            cases.append(Case(f"m{i}", s, ex))
            if not t: continue
            f = facts[t]
    ck.run(exe, cases, leaks=True)
    ck.finish()

# ---------------------------------------------------------------- C20
def raw(s): return s.replace("~", "\0").replace("^", "\n").encode()
def rx(s): return raw(s).hex() or "-"
def plain(syms):
    out, i = b"", 0
    while i < len(syms):
        s = syms[i]
        if s.startswith("u:"):
            v = bytes.fromhex(s[2:])
            if 0xD8 <= v[0] <= 0xDB: i += 1; v += bytes.fromhex(syms[i][2:])
            out += v.decode("utf-16-be").encode()
        else: out += raw(s)
        i += 1
    return out
def cut(b, n): return f"munesc {len(b)} {b[:n].hex() or '-'}" + (" nul" if len(b) < n else "")
def one_of(ex):
    """expected lines; None: any verdict that leaves no trace; a tuple: one of several spellings"""
    if all(isinstance(x, str) for x in ex): return ex
    ok = lambda g, x: g in x if isinstance(x, tuple) else g == x if x is not None else g.startswith("minit ") and "modified" not in g
    return lambda got: len(got) == len(ex) and all(ok(g, x) for g, x in zip(got, ex))
def c20():
    ck = Check("C20")
    exe = B.build("asan")
    inv = ["RoundTrip", "Complete", "Emitted"]
    base = {"Emit": True}
    n1, n2, n3 = (40, 24, 6)
    jobs = [("MetaText", {"Suite": "values", "Shard": k, "Shards": n1, "MaxLen": 3, **base}, inv, {"workers": 4}) for k in (range(n1) if THOROUGH else [(SEED + j) % n1 for j in (0, 13, 26)])]
    jobs += [("MetaText", {"Suite": "texts", "Shard": k, "Shards": n2, "MaxLen": 0, **base}, inv, {"workers": 4}) for k in (range(n2) if THOROUGH else [(SEED + j) % n2 for j in (0, 9, 17)])]
    jobs += [("MetaText", {"Suite": "edits", "Shard": k, "Shards": n3, "MaxLen": 0, **base}, inv, {"workers": 4}) for k in (range(n3) if THOROUGH else [(SEED + j) % n3 for j in (0, 1)])]
    if THOROUGH: jobs += [("MetaText", {"Suite": "values", "Shard": (SEED + k) % 400, "Shards": 400, "MaxLen": 4, **base}, inv, {"workers": 4}) for k in range(0, 400, 40)]
    cases, seen = [], {}
    for r in ck.tlc_many(jobs, 2):
        for c in r:
            if c["t"] in seen and not c["g"]: continue
            seen[c["t"]] = 1
            i = len(cases)
            view = f"minit {c['e']} {c['c']} {rx(c['s'])}"
            s, ex = [f"minit {rx(c['t'])}"], []
            if c["v"] == "ok": ex.append(view)
            elif c["v"] == "empty": ex.append("minit 0 0 -")
            elif c["v"] == "refused": ex.append("minit refused")
            else: ex.append(None)
            if c["v"] == "ok" and c["s"]:
                p = plain(c["p"])
                for n in sorted({0, max(0, len(p) - 1), len(p), len(p) + 1, len(p) + 3}) if i % 3 == 0 else [len(p) + 1]:
                    s.append(f"munesc {rx(c['s'])} {n}"); ex.append(cut(p, n))
            if c["g"]:
                e, t, txt = c["g"]
                ser = raw(c["t"])
                for k in (0, 1, 5, -1) if i % 3 == 0 else (i % 2,):
                    s.append(f"mser {e} {t} {rx(txt)} {k}"); ex.append(f"mser {len(ser)} {ser.hex() if k >= 0 else '-'}" + (" nul" if k > 0 else ""))
                # through a schema, whatever other metadata it carries
                if i % 4 == 0:
                    name = ["geoarrow.wkb", "geoarrow.point"][i % 8 // 4]
                    old = [None, "{}", '{"crs":"old"}'][i % 3]
                    s += [f"smk A z||0 {hx(name)} {'~' if old is None else hx(old)}" + (" first" if old and i % 5 == 0 else ""), f"mset A {e} {t} {rx(txt)}", "mdump A"]
                    full = f"mdump ARROW:extension:metadata={ser.hex()} ARROW:extension:name={hx(name)} other=78"
                    ex += ["mset 0", full]
                    s += [f"smk B z||0 {hx('geoarrow.wkt')} {hx('{}') if i % 3 else '~'}", "msetfrom B A", "mdump B", "mdump A"]
                    ex += ["msetfrom 0", full.replace(hx(name), hx("geoarrow.wkt")), full]
                    if old is None:
                        s += [f"smk C z||0 {hx('geoarrow.wkt')} ~", "msetfrom A C", "mdump A"]      # no metadata, or an empty one
                        ex += ["msetfrom 0", (f"mdump ARROW:extension:name={hx(name)} other=78", f"mdump ARROW:extension:metadata=- ARROW:extension:name={hx(name)} other=78")]
            cases.append(Case(f"m{i}", s, one_of(ex)))
    for i, c in enumerate(ck.tlc("Unescape", {"MaxLen": 3, "Emit": True}, ["AsIs", "NoQuotes", "Emitted"])):
        p = plain(c["p"])
        s, ex = [], []
        for n in sorted({0, 1, len(p) // 2, max(0, len(p) - 1), len(p), len(p) + 1, len(p) + 4}):
            s.append(f"munesc {rx(c['t'])} {n}"); ex.append(cut(p, n))
        cases.append(Case(f"u{i}", s, ex))
    cases.append(Case("lonlat", ["mlonlat"], ["mlonlat 1 2 {"]))
    for i, (o, c, n, want) in enumerate([("[", "]", 20, "ok"), ('{"a":', "}", 20, "ok"), ("[", "-", 200000, "refused"), ('{"a":', "-", 200000, "refused"), ("[", "-", 2000000, "refused"), ("[{\"\":", "-", 400000, "refused"),
                                       ("[", "]", 100000, ("ok", "refused")), ('{"a":', "}", 100000, ("ok", "refused"))]):
        cases.append(Case(f"deep{i}", [f"mdeep {o.encode().hex()} {n} {c.encode().hex() if c != '-' else '-'}"], one_of([f"mdeep {want}" if isinstance(want, str) else tuple(f"mdeep {w}" for w in want)])))
    ck.run(exe, cases, leaks=True)
    ck.finish()
