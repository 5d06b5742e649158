"""C12: refused elements (spec/Refusal.tla)."""
from mbt import *
import writers as W
INV = ["Exact", "OthersKept", "RefusedOut", "NothingOpen", "Emitted"]
MI = ["SureProper", "SureOrdered", "Recover", "Emitted"]
TARGETS = (0, 10, 11, 1, 2, 3, 4, 5, 6)
def new_of(t, i):
    """target, type for show, extra output lines of 'new', number of memory layouts"""
    if t == 0: return (("new W wkb", []), ("new W arr 100001", ["new 0"]))[i % 2], 100001
    if t >= 10: return ((f"new W wkt 16 {t - 10}", []), (f"new W arr 100003 16 {t - 10}", ["new 0"]))[i % 2], 100003
    ty = W.nat_type(t, 1, i // 2 % 2)
    return (f"new W {('nat', 'arr')[i % 2]} {ty}", ["new 0"]), ty

def pieces(line): return [x.strip() for x in line.split("|")[1:]]
def ser_parts(line):
    m = re.fullmatch(r"arr len=(\d+) nulls=(\d+) valid=([01]*) items=(.*)", line)
    return None if not m else (int(m[1]), int(m[2]), m[3], m[4].split(",") if m[1] != "0" else [])

def scenario(cid, group, t, i):
    """group: resolutions of one scenario (the specification's predictions by outcome)"""
    c = group[0]
    via = c["via"]
    if via == "a": i = i // 2 * 2      # whole-geometry appends exist on the specific writers only
    append_bad = c["bad"]["via"] in ("append", "nodes")
    if append_bad: i = i // 2 * 2
    (new, nl), ty = new_of(t, i)
    s, e = [new, "new X rec"], list(nl)
    marks = []                          # index of the output line of each intruder
    lay = i // 4
    may = not c["bad"]["must"] or c["how"] != "stop"
    def good(x, k, out):
        evs = c["evs"][k]
        if via == "a":
            if len(evs) == 3 and evs[1][0] == "nul": out.append(f"appnull {x}")
            else: out += [f"hand H {lay % 10} {toks(evs)}", f"app {x} H", "handfree H"]
            return "app 0"
        out.append(f"ev {x} {lay % 4} {toks(evs)}")
        return "ev 0"
    nb = 0
    for k, p in enumerate(c["pat"]):
        if p != 9: e.append(good("W", k, s))
        else:
            b = c["bad"]
            marks.append((len(e), b, c["how"])); e.append(None)
            if b["via"] == "calls": s.append(f"{ {'stop': 'ev', 'end': 'evfeat', 'all': 'evall'}[c['how']]} W {lay % 4} {toks(b['ev'])}")
            elif b["via"] == "append": s += [f"hand H {lay % 10} {toks(b['ev'])}", "app W H", "handfree H"]
            elif b["via"] == "nodes": s += [f"nodes H 1 {b['txt']}", "app W H", "handfree H"]
            elif b["via"] == "text": s.append(f"rdwkt R{lay % 2} {b['txt'].encode().hex() or '-'} W")
            else: s.append(f"rdwkb R{lay % 2} {b['bytes'] or '-'} W")
        if c["cut"] == k + 1: s.append(f"fin W A{nb}"); e.append("fin 0"); nb += 1
    s += [f"fin W A{nb}", "reset W"]; e.append("fin 0"); nb += 1
    first = len(e)
    for b in range(nb): s += [f"show A{b} {ty}", f"sound A{b} {ty}"] + ([f"rows A{b} {ty} X"] if may else [])
    per = 3 if may else 2
    ref = len(e) + per * nb
    if may:   # the same elements without the intruder, for comparison element by element
        s.append(new.replace(" W ", " R ")); ref += len(nl)
        bb = 0
        for k, p in enumerate(c["pat"]):
            if p != 9: good("R", k, s); ref += 1
            if c["cut"] == k + 1: s.append(f"fin R B{bb}"); ref += 1; bb += 1
        s += [f"fin R B{bb}"]; ref += 1
        for b in range(nb): s.append(f"rows B{b} {ty} X")
    def expect(got):
        want = list(e)
        if not got or len(got) < first: return ["(lines)"] + [str(x) for x in e]
        res = ["in"] * len(c["pat"])
        bad = iter([k for k, p in enumerate(c["pat"]) if p == 9])
        for idx, b, how in marks:
            l = got[idx]
            if how == "all": ok = l.split()[-1] == "0"; refused = any(w != "0" for w in l.split()[1:])
            elif how == "end":
                ats = [w.split("@")[1] for w in l.split()[1:]]
                ok = str(len(b["ev"]) - 1) not in ats; refused = bool(ats)
            else: ok = l.split()[1] == "0"; refused = not ok
            if b["must"] and not refused: return ["<refused>"]
            res[next(bad)] = "in" if ok else "out"
            want[idx] = l
        g = next((x for x in group if x["res"] == res), None)
        if g is None: return [f"<no behaviour of the specification with {res}>"]
        if got[:first] != want: return want
        for b in range(nb):
            rows, arr = g["batches"][b]["rows"], g["batches"][b]["arr"]
            show, sound = got[first + per * b], got[first + per * b + 1]
            if sound != "sound": return ["sound"]
            gshow = show_wkb(arr) if t == 0 else show_wkt(arr) if t >= 10 else show_nat(arr, 1)
            if all(r > 0 for r in rows):
                if show != gshow: return [f"A{b}", gshow]
                continue
            keep = [j for j, r in enumerate(rows) if r > 0]
            if "!" in show: return [f"A{b} well formed"]
            if t in (0, 10, 11):
                a, w = ser_parts(show), ser_parts(gshow)
                if a is None or a[0] != len(rows) or [a[3][j] for j in keep] != w[3] or [a[2][j] for j in keep] != list(w[2]): return [f"A{b} contains", gshow]
            else:
                a, w = pieces(got[first + per * b + 2]), pieces(got[ref + b])
                if len(a) != len(rows) or len(w) != len(keep) or [a[j] for j in keep] != w: return [f"A{b} elements", *w]
        return True
    return Case(cid, s, expect, info={k: c[k] for k in ("pat", "how", "via", "cut")})

def c12():
    ck = Check("C12")
    exe = B.build("asan")
    n = 40
    take = range(0, n, 2) if THOROUGH else (SEED % n, (SEED + 17) % n)
    jobs = [("Refusal", {"Target": t, "MaxItems": 3, "Shard": k, "Shards": n, "Emit": True}, INV, {"workers": 2}) for t in TARGETS for k in take]
    jobs += [("Refusal", {"Target": t, "MaxItems": 4, "Shard": (SEED * 7 + t) % 397, "Shards": 397, "Emit": True}, INV, {"workers": 2}) for t in TARGETS]
    # a geometry under construction: whatever was sent before, the next feature is built exactly
    jobs += [("Misuse", {"Target": 20, "Emit": True, "Suite": "mix", "MaxLen": 4 if THOROUGH else 3, "Shard": (SEED * 3 + 11) % 24, "Shards": 24}, MI, {"workers": 2})]
    cases = []
    for (m, k, *_), cs in zip(jobs, ck.tlc_many(jobs, 4)):
        if m == "Misuse":
            cases += [misuse(f"geometry-{i}", c, 20, i + SEED) for i, c in enumerate(cs)]
            continue
        groups = {}
        for c in cs:
            b = c["bad"]
            if b["via"] == "bytes": b["bytes"] = wkb_bytes(b["ev"] or [])[:b["keep"]].hex()
            groups.setdefault(json.dumps([c[x] for x in ("pat", "bad", "how", "via", "cut")]), []).append(c)
        for i, g in enumerate(groups.values()):
            cases.append(scenario(f"t{k['Target']}-{k['MaxItems']}.{k['Shard']}-{i}", g, k["Target"], i + SEED))
    ck.run(exe, cases, leaks=True)
    ck.finish()

# ------------------------------------------------------------------ C13: spec/Misuse.tla
def elements(show, rows, t):
    """elements of an array as a list of comparable strings; None if not readable"""
    if "!" in show: return None
    if t in (0, 10, 11):
        p = ser_parts(show)
        return None if p is None else [v + x for v, x in zip(p[2], p[3])] if p[0] == len(p[3]) else None
    return pieces(rows)
def misuse(cid, c, t, i):
    tk, lay = c["toks"], i % 4
    line = toks(tk)
    if t == 20:
        g = [["fs"], ["gs", 3, 2], ["rs"], ["c", 2, 5, 2], ["re"], ["gs", 1, 2], ["ge"], ["ge"], ["fe"]] if False else [["fs"], ["gs", 3, 2], ["rs"], ["c", 2, 5, 2], ["re"], ["rs"], ["re"], ["ge"], ["fe"]]
        s = ["new X rec", "new W geom", f"evall W {lay} {line}", "gvisit W X", "clear X", "numcoords W", "new G geom", "gcopy deep W G", "gvisit G X", "clear X",
             f"ev W {lay} {toks(g)}", "gvisit W X", "events X", "numcoords W"]
        import arrays as A
        def expect(got):
            tail = ["ev 0", "gvisit 0", A.plain_line(g, False), "n 2"]
            if not got or len(got) != 9: return ["(lines)"] + tail
            rc = got[0].split()[1:]
            if len(rc) != len(tk): return ["(codes)"]
            for a, b in c["sure"]:
                if any(x != "0" for x in rc[a - 1:b]): return [f"<accepted {a}..{b}>"]
            return True if got[5:] == tail else got[:5] + tail
        return Case(cid, s, expect)
    (new, nl), ty = new_of(t, i)
    if t >= 10 and i % 5 == 4 and not new.startswith("new W arr"): new += f" {(i // 5) % 40}"    # bounded elements
    bounded = t >= 10 and len(new.split()) > 5 and "arr" not in new
    how = "evfeat" if bounded else "ev"
    k = 3 if t in (0, 10, 11) else t
    good = {1: [["gs", 1, 1], ["c", 1, 7, 1], ["ge"]], 2: [["gs", 2, 1], ["c", 1, 7, 3], ["ge"]], 3: [["gs", 3, 1], ["rs"], ["c", 1, 7, 2], ["re"], ["ge"]],
            4: [["gs", 4, 1], ["gs", 1, 1], ["c", 1, 7, 1], ["ge"], ["gs", 1, 1], ["c", 1, 8, 1], ["ge"], ["ge"]],
            5: [["gs", 5, 1], ["gs", 2, 1], ["c", 1, 7, 2], ["ge"], ["ge"]],
            6: [["gs", 6, 1], ["gs", 3, 1], ["rs"], ["c", 1, 7, 2], ["re"], ["ge"], ["ge"]]}[k]
    good = toks([["fs"]] + good + [["fe"]])
    cut, first = i // 2 % 2, i // 4 % 2
    s = [new, "new X rec"] + ([f"{how} W {lay} {good}"] if first else []) + [f"evall W {lay} {line}"] + (["fin W A0"] if cut else []) + [f"{how} W {lay} {good}", "fin W A1", "reset W"]
    arrs = ["A0", "A1"] if cut else ["A1"]
    for x in arrs: s += [f"show {x} {ty}", f"sound {x} {ty}", f"rows {x} {ty} X"]
    ref = [tk[a - 1:b] for a, b in c["sure"]]
    s += [new.replace(" W ", " R ")] + ([f"{how} R {lay} {good}"] if first else []) + [f"{how} R {lay} {toks(r)}" for r in ref] + [f"{how} R {lay} {good}", "fin R B", "reset R", f"show B {ty}", f"rows B {ty} X"]
    nn = len(nl)
    def expect(got):
        n = nn + first + 1 + cut + 2 + 3 * len(arrs) + nn + first + len(ref) + 2 + 2
        if not got or len(got) != n: return [f"({n} lines)"]
        at = nn + first
        rc = got[at].split()[1:]
        if len(rc) != len(tk): return ["(codes)"]
        if first and not bounded and got[nn] != "ev 0": return ["ev 0"]
        acc, sure = [], {b: a for a, b in c["sure"]}
        for j, e in enumerate(tk, 1):
            if e[0] == "fe":
                if j in sure and (rc[j - 1] != "0" if bounded else any(x != "0" for x in rc[sure[j] - 1:j])): return [f"<accepted {sure[j]}..{j}>"]
                if rc[j - 1] == "0": acc.append(j in sure)
        at += 1
        if cut:
            if got[at] != "fin 0": return ["A0 fin 0"]
            at += 1
        if (not bounded and got[at] != "ev 0") or got[at + 1] != "fin 0": return ["ev 0", "fin 0"]
        at += 2
        el = []
        for x in arrs:
            if got[at + 1] != "sound": return [f"{x} sound"]
            e = elements(got[at], got[at + 2], t)
            if e is None: return [f"{x} well formed"]
            if x == "A1" and cut and len(e) != 1: return ["A1 of length 1"]
            el += e; at += 3
        want = elements(got[-2], got[-1], t)
        if len(el) != first + len(acc) + 1: return [f"<{first + len(acc) + 1} elements>"]
        mine = el[:first] + [el[first + j] for j, x in enumerate(acc) if x] + el[-1:]
        return True if mine == want else [f"<elements {want}>"]
    return Case(cid, s, expect)


def c13():
    ck = Check("C13")
    exe = B.build("asan")
    jobs = []
    for x, t in enumerate((0, 10, 11, 20, 1, 2, 3, 4, 5, 6)):
        base = {"Target": t, "Emit": True}
        q = lambda suite, n, m, ml=0, **kw: jobs.extend(("Misuse", dict(base, Suite=suite, MaxLen=ml, Shard=(SEED * 5 + x * 7 + r * 5) % n, Shards=n), MI, dict({"workers": 2}, **kw)) for r in range(min(m, n)))
        if THOROUGH:
            q("mix", 24, 1, 4); q("short", 6, 1, 4); q("short", 1, 1, 3); q("runs", 2, 2); q("runs3", 12, 6); q("edits", 1, 1); q("edits2", 12, 2); q("walk", 1, 1, 60, sim=(300, 60))
        else:
            q("mix", 24, 1, 3); q("walk", 1, 1, 40, sim=(6, 40))
    cases = []
    for (m, k, *_), cs in zip(jobs, ck.tlc_many(jobs, 4)):
        for i, c in enumerate(cs): cases.append(misuse(f"{k['Suite']}{k['MaxLen']}-t{k['Target']}.{k['Shard']}-{i}", c, k["Target"], i + SEED))
    ck.run(exe, cases, leaks=True)
    ck.finish()
