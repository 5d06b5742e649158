"""Shared machinery: run TLC, replay what it emits into the real code, compare, report.

The oracle is always a TLA+ specification: TLC emits behaviours together with the
observations the specification predicts; this file only renders both in one notation."""
import concurrent.futures as cf, json, os, re, shutil, struct, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
import build as B
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = ROOT + "/spec"
TMP = tempfile.mkdtemp(prefix="verif_")

class TlcError(SystemExit): pass

def tlc(module, consts, invariants, init="Spec", props=(), extra_cfg="", workers=8, sim=None, timeout=800,
        heap="4g", extra_files=None, defs=None, module_text=None):
    """Runs TLC; returns (cases, stats).  A violated invariant of the specification itself
    is an error of the machinery (the specification is fixed), never a VIOLATION."""
    d = tempfile.mkdtemp(prefix=f"{module}_", dir=TMP)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"): os.symlink(f"{SPEC}/{f}", f"{d}/{f}")
    for k, v in (extra_files or {}).items():
        if os.path.lexists(f"{d}/{k}"): os.unlink(f"{d}/{k}")
        with open(f"{d}/{k}", "w") as fh: fh.write(v)
    with open(f"{d}/{module}.run.cfg", "w") as f:
        if init == "Spec": f.write("SPECIFICATION Spec\n")
        else: f.write(init + "\n")
        if consts:
            f.write("CONSTANTS\n" + "".join(f"  {k} = {tla(v)}\n" for k, v in consts.items()))
        if invariants: f.write("INVARIANTS " + " ".join(invariants) + "\n")
        if props: f.write("PROPERTIES " + " ".join(props) + "\n")
        f.write("CHECK_DEADLOCK FALSE\n" + extra_cfg)
    cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-Xss512m", f"-Djava.io.tmpdir={d}", "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-config", f"{module}.run.cfg", "-metadir", f"{d}/meta", "-noGenerateSpecTE"]
    if sim: cmd += ["-simulate", f"num={sim[0]}", "-depth", str(sim[1]), "-seed", str(SEED)]
    cmd.append(f"{module}.tla")
    t0 = time.time()
    with open(f"{d}/out", "w") as fo:
        try: rc = subprocess.run(cmd, cwd=d, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired: rc = -9
    cases, rest = [], []
    with open(f"{d}/out") as f:
        for line in f:
            if line.startswith('<<"CASE", "'):
                s = line.rstrip()[len('<<"CASE", '):-2]
                cases.append(json.loads(json.loads(s)))
            else: rest.append(line)
    text = "".join(rest)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    if sim: m2 = re.findall(r"([\d,]+) states checked", text) or re.findall(r"generated: ([\d,]+)", text); m = [(m2[-1], m2[-1])] if m2 else []
    st = {"states": int(m[-1][1].replace(",", "")) if m else 0, "transitions": int(m[-1][0].replace(",", "")) if m else 0,
          "emitted": len(cases), "wall": round(time.time() - t0, 1), "module": module, "consts": dict(consts), "rc": rc, "text": text}
    ok = rc == 0 and ("No error has been found" in text or sim)
    if not ok and "allow_fail" not in (extra_files or {}):
        errs = text[text.find("Error:"):][:2500]
        sys.stderr.write(f"TLC failed on {module} {consts} rc={rc}\n{errs}\n{text[-1500:]}\n")
        raise TlcError(2)
    shutil.rmtree(d, ignore_errors=True)
    return cases, st

def tla(v):
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return v if v.startswith("@") is False and v[:1] in "{<[" else f'"{v}"'
    if isinstance(v, (list, tuple)): return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, set): return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    raise TypeError(v)

def tlc_many(jobs, par=4):
    """jobs: list of (module, consts, invariants[, kw]); runs several TLC processes at once."""
    def one(j):
        kw = dict(j[3]) if len(j) > 3 else {}
        kw.setdefault("workers", 2 if len(jobs) > 1 else 8)
        return tlc(j[0], j[1], j[2], **kw)
    with cf.ThreadPoolExecutor(par) as ex: return list(ex.map(one, jobs))

# ------------------------------------------------------------------ replay
class Case:
    __slots__ = ("id", "script", "expect", "info", "sig")
    def __init__(self, id, script, expect, info=None, sig=None):
        self.id, self.script, self.expect, self.info, self.sig = id, script, expect, info, sig

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:hard_rss_limit_mb=6000:malloc_fill_byte=190:max_malloc_fill_size=4096",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=98", LSAN_OPTIONS="exitcode=97:report_objects=0")

import ctypes, signal
_libc = ctypes.CDLL(None)
def _die_with_parent(): _libc.prctl(1, signal.SIGKILL)
LIMIT = 64 << 20
def _run_chunk(exe, chunk, leaks, timeout):
    """Runs the cases of a chunk in one process; on a crash resumes behind the crashing case."""
    res, todo, crashes = {}, list(chunk), 0
    while todo:
        inp = "".join(f"case {c.id}\n" + "\n".join(c.script) + "\n" for c in todo)
        with tempfile.TemporaryFile("w+", dir=TMP) as fi, tempfile.TemporaryFile("w+", dir=TMP, errors="replace") as fo, \
             tempfile.TemporaryFile("w+", dir=TMP, errors="replace") as fe:
            fi.write(inp); fi.seek(0)
            hang = False
            try: rc = subprocess.run([exe] + (["--leaks"] if leaks else []), stdin=fi, stdout=fo, stderr=fe, env=ENV, timeout=timeout, preexec_fn=_die_with_parent).returncode
            except subprocess.TimeoutExpired: rc, hang = -99, True
            fo.seek(0); fe.seek(0)
            out, err = fo.read(), fe.read(LIMIT)
        cur, order = None, []
        finished = False
        for line in out.split("\n"):
            if line.startswith("case "):
                cur = line[5:]; res[cur] = []; order.append(cur)
            elif line == "done": finished = True
            elif line == "!leak":
                res.setdefault("!leak", []).append(err[-6000:])
            elif cur is not None and line: res[cur].append(line)
        if finished and rc in (0, 97): return res
        if not order:  # nothing started: machinery failure
            sys.stderr.write(f"harness failed rc={rc}\n{err[-3000:]}\n"); raise SystemExit(2)
        bad = order[-1]
        what = "HANG" if hang else "CRASH"
        m = re.search(r"ERROR: (?:Address|Leak)Sanitizer: (\S+)|runtime error: ([^\n]*)", err)
        res[bad].append(f"!{what} " + (m.group(1) or m.group(2) if m else f"rc={rc}"))
        res[bad + "!err"] = err[:6000]
        i = next(k for k, c in enumerate(todo) if c.id == bad)
        todo = todo[i + 1:]
        crashes += 1
        if crashes >= 20:  # already failing: do not spend the time on the rest of this chunk
            for c in todo: res[c.id] = ["!SKIPPED"]
            return res
    return res

def replay(exe, cases, leaks=False, par=8, timeout=600):
    n = max(1, min(par, (len(cases) + 19) // 20))
    size = (len(cases) + n - 1) // n if cases else 1
    chunks = [cases[i:i + size] for i in range(0, len(cases), size)]
    res = {}
    with cf.ThreadPoolExecutor(par) as ex:
        for r in ex.map(lambda c: _run_chunk(exe, c, leaks, timeout), chunks):
            lk = r.pop("!leak", None)
            if lk: res.setdefault("!leak", []).extend(lk)
            res.update(r)
    return res

# ------------------------------------------------------------------ checks
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.viol, self.known, self.stats, self.samples = [], {}, [], []
        self.n_replayed = self.n_cases = 0
        self.distinct = set()
        self.notes = {}
        self.kf = [k for k in load_known() if k["property"] == prop and k.get("status", "open") == "open"]
    def tlc(self, *a, **k):
        c, s = tlc(*a, **k); self.add_stat(s); return c
    def tlc_many(self, jobs, par=4):
        r = tlc_many(jobs, par)
        for _, s in r: self.add_stat(s)
        return [c for c, _ in r]
    def add_stat(self, s):
        s = dict(s); s.pop("text", None); self.stats.append(s)
    def fail(self, case_id, sig, detail):
        for k in self.kf:
            if re.fullmatch(k["match"], sig):
                self.known.setdefault(k["id"], (k, 0)); self.known[k["id"]] = (k, self.known[k["id"]][1] + 1); return
        self.viol.append((case_id, sig, detail))
    def run(self, exe, cases, leaks=False, timeout=600, label=""):
        """Replays cases and compares observation lines with the predicted ones."""
        ids = [c.id for c in cases]; assert len(ids) == len(set(ids)), "duplicate case ids"
        res = replay(exe, cases, leaks, timeout=timeout)
        self.n_cases += len(cases)
        for got in res.values():
            if isinstance(got, list) and got and got[-1].startswith("!unknown command"): raise SystemExit(2)     # a part of the harness was not built
        for c in cases:
            got = res.get(c.id)
            if got == ["!SKIPPED"]: continue
            self.n_replayed += 1
            exp = c.expect(got) if callable(c.expect) else c.expect
            if exp is True: continue
            if exp is False or got != exp:
                crash = [l for l in (got or []) if l.startswith("!")]
                sig = c.sig or c.id
                d = {"case": c.id, "script": c.script, "expected": exp if isinstance(exp, list) else None, "observed": got,
                     "stderr": res.get(c.id + "!err"), "info": c.info}
                self.fail(c.id, sig + (" " + crash[0] if crash else ""), d)
        for l in res.get("!leak", []): self.fail("leak", "leak", {"stderr": l})
        self.distinct.update(c.id for c in cases)
        if cases and len(self.samples) < 6:
            c = cases[len(cases) // 2]
            self.samples.append({"case": c.id, "script": [s[:300] for s in c.script[:12]], "observed": [s[:300] for s in (res.get(c.id) or [])[:6]]})
        return res
    def finish(self, extra=None):
        os.makedirs(f"{ROOT}/evidence", exist_ok=True)
        cov = {"states": sum(s["states"] for s in self.stats), "transitions": sum(s["transitions"] for s in self.stats),
               "traces_validated_against_impl": self.n_replayed,
               "evaluations": self.n_replayed, "distinct_nontrivial": len(self.distinct),
               "rule": "one case = one behaviour of the specification (or one recorded execution) replayed against / checked from the real code; distinct by behaviour id",
               "tlc_runs": [{k: v for k, v in s.items() if k != "rc"} for s in self.stats], "samples": self.samples}
        cov.update(self.notes); cov.update(extra or {})
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        json.dump(ev, open(f"{ROOT}/evidence/{self.prop}.json", "w"), indent=1, default=str)
        for k, n in self.known.values(): print(f"KNOWN-FINDING: property={self.prop} {k['what']} ({n} cases)")
        rc = 0
        if self.viol:
            os.makedirs(f"{ROOT}/replays", exist_ok=True)
            p = f"{ROOT}/replays/{self.prop}.json"
            json.dump([{"case": c, "signature": s, "detail": d} for c, s, d in self.viol[:200]], open(p, "w"), indent=1, default=str)
            for c, s, d in self.viol[:5]: print(f"  failing case {c}: {s[:200]}")
            print(f"{len(self.viol)} failing cases")
            print(f"VIOLATION property={self.prop} replay={p}")
            rc = 1
        else: print(f"OK property={self.prop} replayed={self.n_replayed} states={cov['states']} wall={ev['wall_s']}s")
        shutil.rmtree(TMP, ignore_errors=True)
        sys.exit(rc)

def load_known():
    p = f"{ROOT}/known_findings.json"
    return json.load(open(p))["findings"] if os.path.exists(p) else []

# ------------------------------------------------------------------ notation
AXES = {1: (1, 2), 2: (1, 2, 3), 3: (1, 2, 4), 4: (1, 2, 3, 4)}
NV = {1: 2, 2: 3, 3: 3, 4: 4}
def ordv(i, a): return 10 * i + a
def tok(e):
    return e[0] if e[0] != "gs" and e[0] != "c" else (f"gs:{e[1]}:{e[2]}" if e[0] == "gs" else f"c:{e[1]}:{e[2]}:{e[3]}")
def toks(evs): return " ".join(tok(e) for e in evs)
def coord_list(runs, dst=None):
    """runs <<start,n,srcdims>> -> list of ordinate tuples in dst dims (strings)"""
    out = []
    for s, n, d in runs:
        ax = AXES[dst or d]
        if s < 0: out += [tuple("nan" for _ in ax)] * n; continue
        src = AXES.get(d, ())
        for i in range(s, s + n): out.append(tuple(str(ordv(i, a)) if a in src else "nan" for a in ax))
    return out
def coords_txt(runs, dst=None): return ";".join(",".join(c) for c in coord_list(runs, dst))
NAN = struct.pack("<d", float("nan"))
def wkb_bytes(tk, val=ordv):
    b = bytearray()
    for t in tk:
        if t[0] == "b": b.append(t[1])
        elif t[0] == "u": b += struct.pack("<I", t[1])
        elif t[0] == "nan": b += struct.pack("<Q", 0x7ff8000000000000) * t[1]
        else:
            for i in range(t[2], t[2] + t[3]):
                for a in AXES[t[1]]: b += struct.pack("<d", val(i, a))
    return bytes(b)
def wkt_text(tk, suffix="", val=ordv):
    r = []
    for t in tk:
        if t[0] == "s": r.append(t[1])
        else: r.append(", ".join(" ".join(str(val(i, a)) + suffix for a in AXES[t[1]]) for i in range(t[2], t[2] + t[3])))
    return "".join(r)
def valid_txt(v): return "".join(str(x) for x in v)
def show_ser(b, f):
    return f"arr len={b['len']} nulls={b['nulls']} valid={valid_txt(b['valid'])} items=" + ",".join(f(i).hex() for i in b["items"])
def show_wkb(b): return show_ser(b, wkb_bytes)
def show_wkt(b): return show_ser(b, lambda t: wkt_text(t).encode())
def show_nat(b, dst):
    return (f"arr len={b['len']} nulls={b['nulls']} valid={valid_txt(b['valid'])} offs="
            + "|".join(",".join(map(str, o)) for o in b["offs"]) + f" coords={coords_txt(b['coords'], dst)}")
def events_of(items, numbering=0):
    pass
