"""C06 C07 C23: reading well-known binary against spec/WkbRead.tla."""
from mbt import *
INV = ["InBounds", "EdgeCount", "Faithful", "NoneRefused", "TruncRefused", "EndianRefused", "Exact", "Emitted"]
SPECIAL = [0x0000000000000000, 0x8000000000000000, 0x0000000000000001, 0x800fffffffffffff, 0x7ff0000000000000, 0xfff0000000000000,
           0x7ff8000000000000, 0x7ff0000000000001, 0xfff8dead0000beef, 0x7fefffffffffffff, 0x3ff0000000000001, 0x0102030405060708, 0x4340000000000000]
class Plain:
    """ordinates are the numbers of the specification"""
    hexed = False
    def bits(self, i, a): return struct.unpack("<Q", struct.pack("<d", ordv(i, a)))[0]
    def txt(self, i, a): return str(ordv(i, a))
    nan = "nan"
class Special(Plain):
    hexed = True
    def __init__(self, k): self.k = k
    def bits(self, i, a): return SPECIAL[(5 * i + 3 * a + self.k) % len(SPECIAL)]
    def txt(self, i, a): return f"{self.bits(i, a):016x}"
    nan = "7ff8000000000000"
def render(tk, pay):
    b = bytearray()
    for t in tk:
        if t[0] == "b": b.append(t[1])
        elif t[0] == "u": b += ((t[1] << 16) | t[2]).to_bytes(4, "little" if t[3] else "big")
        elif t[0] == "nan": b += (0x7ff8000000000000).to_bytes(8, "little" if t[2] else "big") * t[1]
        else:
            for i in range(t[2], t[2] + t[3]):
                for a in AXES[t[1]]: b += pay.bits(i, a).to_bytes(8, "little" if t[4] else "big")
    return bytes(b)
def iso(tk, pay):
    return render([t if t[0] == "b" else ["u", t[1] >> 16, t[1] & 0xffff, 1] if t[0] == "u" else ["nan", t[1], 1] if t[0] == "nan" else t + [1] for t in tk], pay)
def events_line(evs, pay):
    out = ["events"]
    for e in evs:
        if e[0] == "c":
            n, nv = e[3], NV[e[1]]
            if n == 0: continue
            cs = [",".join([pay.nan] * nv)] * n if e[2] < 0 else [",".join(pay.txt(i, a) for a in AXES[e[1]]) for i in range(e[2], e[2] + n)]
            if out[-1].startswith("c:"): out[-1] += ";" + ";".join(cs)
            else: out.append(f"c:{nv}:" + ";".join(cs))
        else: out.append(tok(e))
    return " ".join(out)
def num(x):
    if x != x: return "nan"
    if x in (float("inf"), float("-inf")): return "inf" if x > 0 else "-inf"
    if x == int(x) and abs(x) < 1e15: return ("-" if x == 0 and str(x)[0] == "-" else "") + str(int(x))
    return "%.17g" % x
def events_ref(evs, data):
    """coordinates are references into the bytes"""
    out = ["events"]
    for e in evs:
        if e[0] == "c":
            nv = NV[e[1]]
            fm = ("<" if e[4] else ">") + "d"
            out.append(f"c:{nv}:" + ";".join(",".join(num(struct.unpack_from(fm, data, e[2] - 1 + 8 * (i * nv + j))[0]) for j in range(nv)) for i in range(e[3])))
        else: out.append(tok(e))
    return " ".join(out)
GOOD = bytes.fromhex("0102000000020000000000000000002440000000000000454000000000000059400000000000008f40")
GOODEV = "events fs gs:2:1 c:2:10,42;100,992 ge fe"
def bigstack(cases): return cases

def dial_suites(ck):
    r = ck.tlc_many([("WkbRead", {"Suite": s, "Shard": SEED % 3, "Shards": 1 if THOROUGH else 3, "MaxDepth": 255, "Emit": True}, INV, {"workers": 4}) for s in ("dial", "big")])
    return {"dial": r[0], "big": r[1]}
def damage_suites(ck):
    n = 6
    shards = range(n) if THOROUGH else [SEED % n, (SEED + 3) % n]
    jobs = [("WkbRead", {"Suite": "damage", "Shard": k, "Shards": n, "MaxDepth": 255, "Emit": True}, INV, {"workers": 3}) for k in shards]
    jobs += [("WkbRead", {"Suite": "pairs", "Shard": 0, "Shards": 1, "MaxDepth": 255, "Emit": True}, INV, {"workers": 2})]
    r = ck.tlc_many(jobs)
    return [c for x in r[:-1] for c in x], r[-1]

def c06():
    ck = Check("C06")
    exe = B.build("asan")
    S = dial_suites(ck)
    cases = []
    for n, cs in S.items():
        for i, c in enumerate(cs):
            for pay in ((Plain(), Special(i)) if THOROUGH else ((Plain(), Special(i))[(i // 2 + SEED) % 2],)):
                b = render(c["toks"], pay).hex(); ev = events_line(c["evs"], pay); w = iso(c["wkb"], pay).hex()
                s, e = (["bits"] if pay.hexed else []) + ["new X rec"], []
                def look(cmds, outs): s.extend(cmds + ["events X", "clear X"]); e.extend(outs + [ev])
                look([f"rdwkb R {b} X"], ["rd 0"])
                k = i % 4 if not THOROUGH else 9
                if k in (0, 9): look([f"wkbview R {b} visit X"], ["rd 0"])
                if k in (1, 9): look(["new G geom", f"wkbview R {b} deep G", f"rdwkb R {GOOD.hex()} X", "clear X", "gvisit G X"], ["rd 0", "rd 0", "gvisit 0"])
                if k in (2, 9): look(["new H geom", f"wkbview R {b} shallow H X"], ["rd 0"])
                if k in (3, 9) or i % 3 == 0:
                    s += ["new W wkb", f"wkbview R {b} app W", "fin W A", "show A 100001"]
                    e += ["rd 0", "fin 0", f"arr len=1 nulls=0 valid=1 items={w}"]
                if k in (3, 9):
                    # the same value as an array element between others, in two offset widths, sliced
                    for t in (100001, -100002):
                        s += [f"mkser B {t} {GOOD.hex()} null {b} null", f"visit B {abs(t)} {2 if t > 0 else 0} 1 X", "events X", "clear X"]
                        e += ["visit 0", ev]
                cases.append(Case(f"{n}-{i}-{'s' if pay.hexed else 'p'}", s, e))
    ck.run(exe, cases, leaks=True)
    ck.finish()

def want_damage(c, cmds, good_ev=GOODEV):
    data = bytes(c["bytes"])
    ev = events_ref(c["evs"], data) if c["ok"] else None
    def expect(got, ev=ev, ok=c["ok"], n=len(cmds)):
        if got is None: return False
        want = []
        for k in range(n):
            if len(got) < 2 * n + 2: return ["(crash or missing output)"]
            want += (["rd 0", ev] if ok else ["rd <error>", "events"])
        want += ["rd 0", good_ev]
        for a, b in zip(got, want):
            if b == "rd <error>":
                if not a.startswith("rd ") or a == "rd 0": return want
            elif a != b: return want
        return len(got) == len(want) or want
    return expect

def tower_bytes(c): return render(c["toks"], Plain())
def c07():
    ck = Check("C07")
    exe = B.build("asan")
    dam, pairs = damage_suites(ck)
    deep = ck.tlc("WkbRead", {"Suite": "deep", "Shard": 0, "Shards": 1, "MaxDepth": 255, "Emit": True}, INV)
    cases = []
    for n, cs in (("dam", dam), ("pair", pairs)):
        for i, c in enumerate(cs):
            h = bytes(c["bytes"]).hex() or "-"
            cmds = [f"rdwkb R {h} X", "events X", "clear X"]
            cmds2 = [f"wkbview R {h} visit X", "events X", "clear X"]
            k = (i + SEED) % 3
            use = [cmds, cmds2] if THOROUGH else [cmds] if k else [cmds2]
            s = ["new X rec"] + [x for u in use for x in u] + [f"rdwkb R {GOOD.hex()} X", "events X"]
            cases.append(Case(f"{n}-{i}", s, want_damage(c, use), info=c["m"]))
    for i, c in enumerate(deep):
        d = sum(e[0] == "gs" for e in c["evs"])
        h = tower_bytes(c).hex()
        ev = events_line(c["evs"], Plain())
        def expect(got, d=d, ev=ev):
            if got is None or len(got) != 4 or got[2:] != ["rd 0", GOODEV]: return ["rd ?", "events", "rd 0", GOODEV]
            full = got[:2] == ["rd 0", ev]
            none = got[0].startswith("rd E") and (got[1] == "events" or ev.startswith(got[1]))
            lim = 32 if d <= 32 else 256
            return (full if d <= 32 else none if d > 256 else full or none) or ["rd 0" if d <= 32 else "rd <error>", ev]
        cases.append(Case(f"deep-{i}", ["new X rec", f"rdwkb R {h} X", "events X", "clear X", f"rdwkb R {GOOD.hex()} X", "events X"], expect))
    ck.run(exe, cases, leaks=True)
    ck.finish()

STATUSES = {"TOO_FEW_BYTES", "TOO_MANY_BYTES", "INVALID_ENDIAN", "INVALID_GEOMETRY_TYPE"}
def c23():
    ck = Check("C23")
    exe = B.build("asan")
    S = dial_suites(ck)
    dam, pairs = damage_suites(ck)
    gv = "vertices " + " ".join(f"{x},{y},nan,nan" for x, y in ((10, 42), (100, 992)))
    good = ["pp OK", "end 0", GOODEV, gv, "srid -"]
    cases = []
    def srid_line(tk):
        r, i = [], 0
        while i < len(tk):
            if tk[i][0] == "b":
                if tk[i + 1][1] & 0x2000: r.append(str((tk[i + 2][1] << 16) | tk[i + 2][2]))
                else: r.append("-")
            i += 1
        return "srid " + " ".join(r)
    def vert_line(evs, pay):
        o = ["vertices"]
        for e in evs:
            if e[0] == "c":
                for i in range(e[3]):
                    o.append(",".join(pay.nan if e[2] < 0 else pay.txt(e[2] + i, a) if a in AXES[e[1]] else pay.nan for a in (1, 2, 3, 4)))
        return " ".join(o)
    for n, cs in S.items():
        # encodings of one shape follow each other, in changing byte orders and dialects
        cs, last = sorted(cs, key=lambda c: json.dumps([[e[:2] for e in c["evs"]], c["g"]["d"]])), None
        for i, c in enumerate(cs):
            pay = (Plain(), Special(i))[(i // 2 + SEED) % 2] if n == "big" else (Plain(), Special(i))[(i // 8 + SEED) % 2]
            b = render(c["toks"], pay).hex()
            dst = (i + SEED) % 4 + 1
            def edge_line(pay=pay, c=c, dst=dst):
                def v(d, k): return ",".join(pay.nan if k < 0 or a not in AXES[d] else pay.txt(k, a) for a in AXES[dst])
                return "edges" + "".join(f" {v(d, x)}>{v(d, y)}" for d, x, y in c["edges"])
            me = (f"wkbpp P {b} {dst}", ["pp OK", "end 0", events_line(c["evs"], pay), vert_line(c["evs"], pay), edge_line(), srid_line(c["toks"])])
            # the parser and its geometry are used again for other values: the one before (another dialect or
            # shape) in between and after, with what it gave then
            seq = [me] if not last or pay.hexed != last[0] else [last[1], me, last[1]] if i % 2 else [me, last[1], me]
            last = (pay.hexed, me)
            want = [l for m in seq for l in m[1]]
            def expect(got, want=want, hexed=pay.hexed):
                if got is None or len(got) != len(want): return want
                for a, x in zip(got, want):
                    # the NaN standing for a missing ordinate may be any NaN
                    if a.startswith(("vertices", "edges")) and hexed:
                        A, X = a.replace(">", " ").split(), x.replace(">", " ").split()
                        ok = len(A) == len(X) and all(all(p == q or (q == "7ff8000000000000" and p.startswith(("7ff8", "fff8"))) for p, q in zip(u.split(","), v.split(","))) for u, v in zip(A[1:], X[1:]))
                        if not ok: return want
                    elif a != x: return want
                return True
            cases.append(Case(f"{n}-{i}", (["bits"] if pay.hexed else []) + [m[0] for m in seq], expect))
    for n, cs in (("dam", dam), ("pair", pairs)):
        for i, c in enumerate(cs):
            data = bytes(c["bytes"])
            def expect(got, c=c, data=data):
                if got is None or got[-5:] != good: return ["pp ...", "..."] + good
                g = got[:-5]
                if not c["ok"]:
                    return (len(g) == 1 and g[0].startswith("pp ") and g[0][3:] in STATUSES - {"TOO_MANY_BYTES"}) or ["pp <refused>"] + good
                want = ["pp TOO_MANY_BYTES" if c["rest"] else "pp OK", f"end {c['rest']}", events_ref(c["evs"], data)]
                return g[:3] == want or want
            cases.append(Case(f"{n}-{i}", [f"wkbpp P {data.hex() or '-'}", f"wkbpp P {GOOD.hex()}"], expect, info=c["m"]))
    cases.append(Case("huge", [f"wkbpphuge {GOOD.hex()}"], lambda g: g in (["pp TOO_MANY_BYTES"], ["pp skipped"]) or ["pp TOO_MANY_BYTES"]))
    ck.run(exe, cases, leaks=True)
    ck.finish()
