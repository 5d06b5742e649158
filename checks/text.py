"""C05: well-known text input against spec/WktRead.tla."""
from mbt import *
INV = ["Faithful", "Verdict", "Balanced", "Emitted"]
GOODT, GOODTEV = "POLYGON Z ((1 2 3, 4 5 6))", "events fs gs:3:2 rs c:3:1,2,3;4,5,6 re ge fe"
def numtxt(x):
    if x == int(x) and abs(x) < 1e15: return ("-" if x == 0 and str(x)[0] == "-" else "") + str(int(x))
    return "%.17g" % x
def word_events(evs):
    """events whose coordinates are <<"v", ordinate words>>; the number a word spells is Python's float()"""
    o = ["events", "fs"]
    for e in evs:
        if e[0] == "v":
            c = ",".join(numtxt(float(w)) for w in e[1])
            if o[-1].startswith(f"c:{len(e[1])}:"): o[-1] += ";" + c
            else: o.append(f"c:{len(e[1])}:{c}")
        else: o.append(tok(e))
    return " ".join(o + ["fe"])
def raw_text(t): return t.replace("@", "\0").replace("#", "\x0b").encode()
def texts(ck, suites=None):
    q = not THOROUGH
    jobs = [("valid", 0, 1), ("big", SEED % 3 if q else 0, 3 if q else 1), ("nest", 0, 1)]
    jobs += [("lexemes", k, 3) for k in range(3)] + [("chars", k, 6) for k in (range(6) if not q else [SEED % 6, (SEED + 2) % 6, (SEED + 3) % 6])]
    jobs += [("long", (SEED * 11 + 7 * k) % 40, 40) for k in range(8 if THOROUGH else 1)]
    if suites: jobs = [j for j in jobs if j[0] in suites]
    r = ck.tlc_many([("WktRead", {"Suite": s, "Shard": k, "Shards": n, "DepthSure": 32, "Emit": True}, INV, {"workers": 3}) for s, k, n in jobs], 4)
    return [(f"{j[0]}{j[1]}-{i}", c) for j, cs in zip(jobs, r) for i, c in enumerate(cs)]
def c05():
    ck = Check("C05")
    exe, std = B.build("asan"), B.build("std")
    cases = []
    for n, (name, c) in enumerate(texts(ck)):
        b = raw_text(c["txt"]); ok = c["ok"]; ev = word_events(c["evs"])
        s = ["new X rec", f"rdwkt R {b.hex() or '-'} X"] + (["events X"] if ok == "ok" else []) + ["clear X", f"rdwkt R {GOODT.encode().hex()} X", "events X"]
        def expect(got, ok=ok, ev=ev):
            if not got: return ["(no output)"]
            tail = ["rd 0", GOODTEV]
            if ok == "ok": return ["rd 0", ev] + tail
            if got[1:] != tail or not got[0].startswith("rd "): return ["rd <refused>" if ok == "no" else "rd"] + tail
            return [got[0]] + tail if ok == "any" or got[0] != "rd 0" else ["rd <refused>"] + tail
        cases.append(Case(name, s, expect, info=c["txt"][:200]))
        if ok != "any" and n % 3 == 0 and "@" not in c["txt"]:
            # as one element of an array, behind and before others
            h = GOODT.encode().hex()
            for t in (100003, -100004):
                s = ["new X rec", f"mkser A {t} {h} null {b.hex() or '-'} {h}", f"visit A {abs(t)} {2 if t > 0 else 0} 1 X"] + (["events X"] if ok == "ok" else [])
                cases.append(Case(f"{name}/{t}", s, (lambda got: ["visit 0", ev]) if False else
                                  (["visit 0", ev] if ok == "ok" else (lambda got: True if got and got[0].startswith("visit ") and got[0] != "visit 0" else ["visit <refused>"]))))
    deep = 60000
    for k, t in enumerate(("GEOMETRYCOLLECTION (" * deep, "GEOMETRYCOLLECTION (" * deep + "POINT (1 2)" + ")" * deep)):
        cases.append(Case(f"deep-{k}", ["new X rec", f"rdwkt R {t.encode().hex()} X", "clear X", f"rdwkt R {GOODT.encode().hex()} X", "events X"],
                          lambda got: bool(got) and len(got) == 3 and got[0].startswith("rd ") and got[1:] == ["rd 0", GOODTEV]))
    ck.run(exe, cases, leaks=True)
    ck.run(std, [Case("std-" + c.id, c.script, c.expect, c.info) for c in cases], leaks=True)
    ck.finish()

CANON = re.compile(r"-?(0|[1-9][0-9]*)(\.[0-9]*[1-9])?")
def dbits(x): return struct.pack(">d", x).hex()
def c26():
    from fractions import Fraction
    ck = Check("C26")
    exe, std = B.build("asan"), B.build("std")
    n = 6
    jobs = [("Numbers", {"Suite": s, "Shard": k, "Shards": n, "Emit": True}, ["PrintsNearest", "Canonical", "SpellNum", "Emitted"], {"workers": 2})
            for s in ("dyadic", "random", "half") for k in (range(n) if THOROUGH else [(SEED + j) % n for j in range(3)])]
    m = 40
    jobs += [("NumEdit", {"Shard": 0, "Shards": 1, "Two": False, "Emit": True}, ["SignFree", "Emitted"], {"workers": 2})]
    jobs += [("NumEdit", {"Shard": (SEED + 7 * j) % m, "Shards": m, "Two": True, "Emit": True}, ["SignFree", "Emitted"], {"workers": 2}) for j in range(8 if THOROUGH else 1)]
    res = list(zip(jobs, ck.tlc_many(jobs, 4)))
    H = lambda t: t.encode().hex() or "-"
    cases, seen = [], set()
    for (j, cs) in res:
        for i, c in enumerate(cs):
            if j[0] == "NumEdit":
                t = c["txt"].replace("@", "\0").replace("#", "\x0b")
                if t in seen or t[:1] == "+": continue
                seen.add(t)
                if c["ok"]: exp = ["parse " + dbits(float(t))] if abs(float(t)) < 1e300 and (float(t) == 0 or abs(float(t)) > 1e-300) else (lambda g: True)
                else: exp = (lambda g: bool(g) and len(g) == 1 and g[0].startswith("parse E") or ["parse <refused>"])
                cases.append(Case(f"edit-{len(seen)}", [f"parse {H(t)}"], exp, info=t))
                continue
            name = f"{j[1]['Suite']}{j[1]['Shard']}-{i}"
            fits = lambda ts: [t for t in ts if len(t) < 64]
            if c["half"]:
                # exactly between two doubles: the even one; beside it: the nearer one
                v = abs(Fraction(c["exact"])) / Fraction(2) ** c["e"]; lo = v.numerator // v.denominator
                assert v - lo == Fraction(1, 2)
                sg = -1 if c["neg"] else 1
                B3 = [dbits(sg * float(k * Fraction(2) ** c["e"])) for k in (lo, lo + 1)]
                ts = fits(c["spell"]); want = [B3[lo % 2]] * len(ts)
                for grp, b in ((c["below"], B3[0]), (c["above"], B3[1])):
                    g = fits(grp); ts += g; want += [b] * len(g)
                cases.append(Case(name, ["parse " + " ".join(map(H, ts))], ["parse " + " ".join(want)], info=ts))
                continue
            x = float(Fraction(c["exact"])) if Fraction(c["exact"]) else (-0.0 if c["neg"] else 0.0)
            assert Fraction(x) == Fraction(c["exact"])
            b = dbits(x)
            ts = fits(c["spell"])
            s, e = ["parse " + " ".join(map(H, ts))], ["parse " + " ".join([b] * len(ts))]
            ps = [p for p in c["prints"]]
            s.append(f"print {b} " + " ".join(str(p["p"]) for p in ps))
            def expect(got, e=list(e), ps=ps, v=Fraction(c["exact"]), ulp=Fraction(2) ** c["e"], few=c["sig"] <= 15):
                w = e + ["print " + " ".join(p["t"] for p in ps)]
                if not got or len(got) != 2 or got[0] != e[0]: return w
                ts = got[1].split()
                if ts[:1] != ["print"] or len(ts) != len(ps) + 1: return w
                for t, p in zip(ts[1:], ps):
                    if t == p["t"] or (Fraction(p["t"]) == 0 and t in ("0", "-0")): continue
                    if few or not CANON.fullmatch(t): return w
                    # more than 15 digits: the digits behind what identifies the double are free
                    if len(t.partition(".")[2]) > p["p"] or abs(Fraction(t) - v) > ulp / 2 + Fraction(1, 2 * 10 ** p["p"]): return w
                return True
            cases.append(Case(name, s, expect, info=c["exact"]))
            if x == 0 or abs(x) >= 1: cases.append(Case(name + "/trip", [f"trip {b} 16"], ["trip " + b], info=c["exact"]))
            # very large: the same digits scaled beyond 1e17
            if abs(x) >= 1:
                for k in (60, 333, 900):
                    y = x * 2.0 ** k
                    cases.append(Case(f"{name}/big{k}", [f"trip {dbits(y)} {(i * 7) % 17}"], ["trip " + dbits(y)]))
    ck.run(exe, cases)
    ck.run(std, [Case("std-" + c.id, c.script, c.expect, c.info) for c in cases])
    ck.finish()
