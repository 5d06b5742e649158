"""Script machine for the Python bindings: reads commands, prints what is seen (see checks/python_.py)."""
import sys, ctypes as C, array, weakref, struct, re, math
import numpy as np
import geoarrow.c as ga
import geoarrow.c.lib as lib
L = ga.lib if hasattr(ga, "lib") else lib

class Schema(C.Structure): pass
class Array(C.Structure): pass
SREL, AREL = C.CFUNCTYPE(None, C.POINTER(Schema)), C.CFUNCTYPE(None, C.POINTER(Array))
Schema._fields_ = [("format", C.c_char_p), ("name", C.c_char_p), ("metadata", C.c_void_p), ("flags", C.c_int64), ("n_children", C.c_int64),
                   ("children", C.POINTER(C.POINTER(Schema))), ("dictionary", C.c_void_p), ("release", SREL), ("private_data", C.c_void_p)]
Array._fields_ = [("length", C.c_int64), ("null_count", C.c_int64), ("offset", C.c_int64), ("n_buffers", C.c_int64), ("n_children", C.c_int64),
                  ("buffers", C.POINTER(C.c_void_p)), ("children", C.POINTER(C.POINTER(Array))), ("dictionary", C.c_void_p), ("release", AREL), ("private_data", C.c_void_p)]
KEEP = {}          # memory behind what was made here, until it is released
def forget(key):
    if key in TRACK: DEAD.append(TRACK[key])
    KEEP.pop(key, None)
@SREL
def schema_release(p):
    s = p.contents
    for i in range(s.n_children):
        if s.children[i].contents.release: s.children[i].contents.release(s.children[i])
    s.release = SREL()
    forget(s.private_data)
@AREL
def array_release(p):
    a = p.contents
    for i in range(a.n_children):
        if a.children[i].contents.release: a.children[i].contents.release(a.children[i])
    a.release = AREL()
    forget(a.private_data)
NEXT = [1]
TRACK, DEAD = {}, []
def key(x):
    k = NEXT[0]; NEXT[0] += 1
    KEEP[k] = x
    return k
def meta(d):
    b = struct.pack("<i", len(d))
    for k, v in d.items(): b += struct.pack("<i", len(k)) + k + struct.pack("<i", len(v)) + v
    return C.create_string_buffer(b, len(b))
def fill_schema(s, fmt, name=b"", md=None, kids=(), flags=2):
    m = meta(md) if md else None
    ptrs = (C.POINTER(Schema) * max(len(kids), 1))(*[C.pointer(k) for k in kids])
    s.format, s.name, s.flags, s.n_children = fmt, name, flags, len(kids)
    s.metadata = C.addressof(m) if m else None
    s.children = C.cast(ptrs, C.POINTER(C.POINTER(Schema)))
    s.release, s.private_data = schema_release, key((m, ptrs, kids, fmt, name))
EXT = {1: b"point", 2: b"linestring", 3: b"polygon", 4: b"multipoint", 5: b"multilinestring", 6: b"multipolygon", 990: b"box"}
def storage(s, t, name=b"", md=None):
    if t >= 100000:
        return fill_schema(s, {100001: b"z", 100002: b"Z", 100003: b"u", 100004: b"U", 100005: b"vz", 100006: b"vu"}[t], name, md)
    g, d, inter = t % 1000, (t // 1000) % 10, t // 10000
    ax = ["xy", "xyz", "xym", "xyzm"][d]
    def coords(s, name, md=None):
        if inter:
            k = Schema(); fill_schema(k, b"g", ax.encode(), flags=0)
            return fill_schema(s, b"+w:%d" % len(ax), name, md, [k])
        ks = []
        names = [a for a in ax] if g != 990 else [a + "min" for a in ax] + [a + "max" for a in ax]
        for n in names: k = Schema(); fill_schema(k, b"g", n.encode(), flags=0); ks.append(k)
        fill_schema(s, b"+s", name, md, ks)
    levels = {1: [], 990: [], 2: [b"vertices"], 4: [b"points"], 3: [b"rings", b"vertices"], 5: [b"linestrings", b"vertices"], 6: [b"polygons", b"rings", b"vertices"]}[g]
    def lists(s, name, left, md=None):
        if not left: return coords(s, name, md)
        k = Schema(); lists(k, left[0], left[1:])
        fill_schema(s, b"+l", name, md, [k])
    lists(s, name, levels, md)
def schema_of(t, extra=b"", ext=True):
    h = lib.SchemaHolder()
    s = Schema.from_address(h._addr())
    n = {100001: b"wkb", 100002: b"wkb", 100003: b"wkt", 100004: b"wkt", 100005: b"wkb", 100006: b"wkt"}.get(t) or EXT[t % 1000]
    storage(s, t, b"", {b"ARROW:extension:name": b"geoarrow." + n, b"ARROW:extension:metadata": extra} if ext else None)
    return h
RAW = {}
def buffer_of(spec):
    if spec == "N": return None
    k, v = spec.split(":", 1)
    if k == "hex": b = bytes.fromhex(v)
    elif k == "bits": b = np.packbits([int(x) for x in v], bitorder="little").tobytes()
    else:
        xs = [x for x in v.split(",") if x]
        b = np.array([float(x) for x in xs], {"f64": "<f8", "i32": "<i4", "i64": "<i8"}[k]).tobytes() if k == "f64" else np.array([int(x) for x in xs], {"i32": "<i4", "i64": "<i8"}[k]).tobytes()
    return (C.c_char * len(b)).from_buffer_copy(b)
def fill_array(a, length, offset, nulls, specs, kids):
    bufs = [buffer_of(s) for s in specs]
    ptrs = (C.c_void_p * max(len(bufs), 1))(*[C.addressof(b) if b is not None else None for b in bufs])
    cp = (C.POINTER(Array) * max(len(kids), 1))(*[C.pointer(k) for k in kids])
    a.length, a.null_count, a.offset, a.n_buffers, a.n_children = length, nulls, offset, len(bufs), len(kids)
    a.buffers = C.cast(ptrs, C.POINTER(C.c_void_p))
    a.children = C.cast(cp, C.POINTER(C.POINTER(Array)))
    a.dictionary = None
    a.release, a.private_data = array_release, key((bufs, ptrs, cp, kids))
    return a.private_data

V = {}             # the variables
def num(x): return "%g" % x if abs(x) < 1e9 or math.isinf(x) or math.isnan(x) else repr(x)
def content(b):
    m = memoryview(b)
    if m.format in ("i", "d"): return m.format + ":" + ",".join(num(x) for x in m.tolist())
    return "B:" + m.tobytes().hex()
def bufs(v):
    out = V[v]["bufs"] if isinstance(V[v], dict) else V[v].buffers()
    return "|".join("N" if b is None else content(b) for b in out)

class BA(bytearray): pass
class Arr(array.array): pass
CODE = {"i": np.int32, "d": np.float64, "B": np.uint8}
def source(flavour, f, text):
    """an object with these elements, and what to watch for its end"""
    vals = bytes.fromhex(text) if f == "B" else [float(x) if f == "d" else int(x) for x in text.split(",") if x]
    a = np.array(list(vals), CODE[f])
    if flavour == "np": return a, a
    if flavour == "arr": x = Arr(f, list(vals)); return x, x
    if flavour == "ba":
        x = BA(a.tobytes())
        return (x, x) if f == "B" else (memoryview(x).cast(f), x)
    if flavour == "mv": return memoryview(a), a
    if flavour == "ct":
        x = ({"i": C.c_int32, "d": C.c_double, "B": C.c_uint8}[f] * len(a))(*list(vals))
        return (memoryview(x).cast("B").cast(f) if len(a) else memoryview(a)), (x if len(a) else a)
    if flavour == "ro": a.flags.writeable = False; return a, a
    raise KeyError(flavour)
def setter(b, f): return {"i": b.set_buffer_int32, "d": b.set_buffer_double, "B": b.set_buffer_uint8}[f]
def watch(obj, i):
    weakref.finalize(obj, DEAD.append, i).atexit = False

# ------------------------------------------------------------ reading arrays with ctypes
def ints(p, n, t=C.c_int32): return (t * n).from_address(p)[:] if n else []
def valid(a, i):
    p = a.buffers[0]
    if not p: return True
    k = a.offset + i
    return bool(C.c_uint8.from_address(p + k // 8).value >> (k % 8) & 1)
def text_row(s):
    s = s.decode()
    m = re.fullmatch(r"(POINT|LINESTRING) (?:EMPTY|\(([^()]*)\))", s)
    if not m: return "?" + s
    return ("1:" if m[1] == "POINT" else "2:") + ";".join(c.strip().replace(" ", ",") for c in (m[2] or "").split(",") if c)
def wkb_row(b):
    order, g = struct.unpack_from("<BI", b)
    if order != 1: return "?order"
    if g == 1: return "1:" + ",".join(map(num, struct.unpack_from("<2d", b, 5))) if len(b) == 21 else "?len"
    n, = struct.unpack_from("<I", b, 5)
    return f"{g}:" + ";".join(",".join(map(num, struct.unpack_from("<2d", b, 9 + 16 * i))) for i in range(n)) if len(b) == 9 + 16 * n else "?len"
def rows(t, a):
    out = []
    n = a.length
    if t == 990: return ["b:" + ",".join(num(C.c_double.from_address(c.contents.buffers[1] + 8 * (a.offset + i + c.contents.offset)).value) for c in a.children[:4]) if valid(a, i) else "null" for i in range(n)]
    if t >= 100000:
        offs = ints(a.buffers[1], a.offset + n + 1) if n else [0]
        for i in range(n):
            if not valid(a, i): out.append("null"); continue
            lo, hi = offs[a.offset + i], offs[a.offset + i + 1]
            s = C.string_at(a.buffers[2] + lo, hi - lo) if hi > lo else b""
            out.append(text_row(s) if t in (100003, 100004) else wkb_row(s))
        return out
    def leaf(x):
        if t // 10000: k = x.children[0].contents; d = [("i", k)]
        def at(q):
            if t // 10000:
                k = x.children[0].contents
                return ",".join(num(C.c_double.from_address(k.buffers[1] + 8 * (k.offset + (x.offset + q) * 2 + j)).value) for j in range(2))
            return ",".join(num(C.c_double.from_address(x.children[j].contents.buffers[1] + 8 * (x.children[j].contents.offset + x.offset + q)).value) for j in range(2))
        return at
    g = t % 1000
    if g == 1:
        at = leaf(a)
        return [("1:" + at(i)) if valid(a, i) else "null" for i in range(n)]
    at = leaf(a.children[0].contents)
    offs = ints(a.buffers[1], a.offset + n + 1) if n else [0]
    return ["2:" + ";".join(at(q) for q in range(offs[a.offset + i], offs[a.offset + i + 1])) if valid(a, i) else "null" for i in range(n)]
def show_schema(h):
    s = Schema.from_address(h._addr())
    m, ext = s.metadata, ""
    if m:
        n, = ints(m, 1); p = m + 4
        for _ in range(n):
            k, = ints(p, 1); kk = C.string_at(p + 4, k); p += 4 + k
            v, = ints(p, 1); vv = C.string_at(p + 4, v); p += 4 + v
            if kk == b"ARROW:extension:name": ext = vv.decode()
    return ext or s.format.decode()
def arr(h): return Array.from_address(h._addr())

# ------------------------------------------------------------ commands
OUT = []
def say(s): OUT.append(s)
def cmd_raw(name, length, offset, nulls, specs, kids="-"):
    a = Array()
    fill_array(a, int(length), int(offset), int(nulls), [] if specs == "-" else specs.split("|"), [RAW[k] for k in kids.split("|")] if kids != "-" else [])
    RAW[name] = a
def cmd_reslice(name, off, length): RAW[name].offset += int(off); RAW[name].length = int(length)
def cmd_hold(v, name):
    h = lib.ArrayHolder()
    C.memmove(h._addr(), C.addressof(RAW[name]), C.sizeof(Array))
    V[v] = h
def cmd_schema(v, t): V[v] = schema_of(int(t))
def cmd_bld(v, t): V[v] = lib.CBuilder(schema_of(int(t))); say("ok")
def cmd_src(v, i, flavour, f, text, keep):
    V["tmp"], w = source(flavour, f, text if text != "-" else "")
    watch(w, int(i))
    if keep == "1": V[v] = w
def cmd_set(b, j, f):
    o = V.pop("tmp"); V["tmp2"] = None
    setter(V[b], f)(int(j), o); say("ok")
def cmd_spread(b, j, f, text):
    x, _ = source("np", f, text if text != "-" else "")
    y = np.empty(2 * len(x) + 3, x.dtype); y[:] = 99; y[0:2 * len(x):2] = x
    setter(V[b], f)(int(j), y[0:2 * len(x):2]); say("ok")
def cmd_bad(b, w, n):
    x = V[b]
    {1: lambda: x.set_buffer_double(int(n), np.zeros(2)), 2: lambda: x.set_buffer_double(-1, np.zeros(2)), 3: lambda: x.set_buffer_double(2, np.zeros(2, np.float32)),
     4: lambda: x.set_buffer_int32(1, np.zeros(2, np.int64)), 5: lambda: x.set_buffer_double(2, [1.0, 2.0]), 6: lambda: x.set_buffer_int32(1, np.zeros((2, 2), np.int32))}[int(w)]()
    say("ok")
def cmd_grow(v):
    x = V[v]
    if isinstance(x, BA): x.extend(b"\xee" * 4096)
    else: [x.append(x.typecode == "d" and 7.5 or 7) for _ in range(600)]
    say("ok")
def cmd_fin(v, b): V[v] = V[b].finish(); say("ok")
def cmd_track(i): TRACK[arr(V["given"]).private_data] = int(i)
def cmd_given(v, i, name):
    cmd_hold(v, name)
    TRACK[arr(V[v]).private_data] = int(i)
    say("ok")
def cmd_dump(v, t): say("[" + "|".join(rows(int(t), arr(V[v]))) + "]")
def cmd_view(v, x, t): V[v] = lib.CArrayView(V[x], schema_of(int(t))); say("ok")
def cmd_bufs(v, x):
    V[v] = {"bufs": V[x].buffers()}
    say("|".join("N" if b is None else content(b) for b in V[v]["bufs"]))
def cmd_mem(v, p, j): V[v] = memoryview(V[p]["bufs"][int(j)]); say("ok")
def cmd_read(v): say(content(V[v]))
def cmd_release(v): V[v].release(); say("ok")
class Own:
    """an array that is released by somebody who does not hold the interpreter"""
    def __init__(self, h):
        self.a = Array()
        C.memmove(C.addressof(self.a), h._addr(), C.sizeof(Array))
        arr(h).release = AREL()
    def done(self):
        self.a.release(C.byref(self.a))
        if self.a.release: say("!unmarked")
def cmd_export(v, x): V[v] = Own(V[x]); say("ok")
def cmd_del(v):
    x = V.pop(v, None)
    if isinstance(x, Own): x.done()
    say("ok")
def cmd_ker(v, name): V[v] = lib.CKernel(name.encode()); say("ok")
def cmd_noker(w):
    if w == "1": lib.CKernel(b"not_a_kernel")
    else: lib.CKernel(b"")
    say("ok")
def cmd_start(k, t, out):
    o = {b"type": b"%d" % int(out)} if out != "-" else {}
    m = meta(o)
    V[k + "s"] = V[k].start(schema_of(int(t)), m.raw)
    say("ok " + show_schema(V[k + "s"]))
def cmd_startbad(k, w):
    h = lib.SchemaHolder()
    if w == "0": fill_schema(Schema.from_address(h._addr()), b"i")
    V[k].start(h, b"\0\0\0\0"); say("ok")
def cmd_push(k, x, v): V[v] = V[k].push_batch(V[x]); say("ok" if V[v].is_valid() else "ok !none")
def cmd_pushgone(k, x, agg): say("ok" if (V[k].push_batch_agg if agg == "1" else V[k].push_batch)(V[x]) else "ok")
def cmd_pushagg(k, x): say("ok" if V[k].push_batch_agg(V[x]) is None else "ok !value")
def cmd_pushbad(k, t):
    h = lib.ArrayHolder()
    good = b"POINT (1 2)" if t == "100003" else struct.pack("<BI2d", 1, 1, 1, 2)
    bad = b"POINT (1 2" if t == "100003" else good[:12]
    fill_array(arr(h), 2, 0, 0, ["N", f"i32:0,{len(good)},{len(good) + len(bad)}", "hex:" + (good + bad).hex()], [])
    V[k].push_batch(h); say("ok")
def cmd_finish(k): say("ok" if V[k].finish() is None else "ok !value")
def cmd_finagg(k, what):
    h = V[k].finish_agg(); a = arr(h)
    if what == "box": s = "box:" + ",".join(num(C.c_double.from_address(a.children[j].contents.buffers[1] + 8 * (a.offset + a.children[j].contents.offset)).value) for j in range(4))
    elif what == "types": s = "types:" + ",".join(map(str, ints(a.buffers[1], a.length)))
    else: s = f"null:{a.length},{a.null_count}"
    say("ok " + s)
# --- data types (the script language of C24)
def T(x): return V.get(x)
def hexs(b): return b.hex() or "-"
def cmd_dtnew(x, *a):
    if len(a) == 0: V[x] = lib.CGeometryDataType(); say("dtnew ok"); return
    m = bytes.fromhex(a[-1]) if a[-1] != "-" else b""
    if len(a) == 2: V[x] = lib.CGeometryDataType.FromStorage(schema_of(int(a[0]), b"", False), EXTNAME(int(a[0])), m)
    else: V[x] = lib.CGeometryDataType.Make(int(a[0]), int(a[1]), int(a[2]), m)
    say("dtnew ok")
def EXTNAME(t): return b"geoarrow." + ({100001: b"wkb", 100002: b"wkb", 100003: b"wkt", 100004: b"wkt", 100005: b"wkb", 100006: b"wkt"}.get(t) or EXT[t % 1000])
def cmd_dtop(x, y, w, v, text="-"):
    v = int(v); a = V[x]
    text = bytes.fromhex(text) if text != "-" else b""
    def storage():
        s = a.to_storage_schema()
        if lib.CGeometryDataType.FromStorage(s, a.extension_name.encode(), b"").id != a.id: say("!other id")
        return lib.CGeometryDataType.FromStorage(s, a.extension_name.encode(), a.extension_metadata)
    V[y] = {"g": lambda: a.with_geometry_type(v), "d": lambda: a.with_dimensions(v), "c": lambda: a.with_coord_type(v), "e": lambda: a.with_edge_type(v),
            "crs": lambda: a.with_crs(text, v), "schema": lambda: lib.CGeometryDataType.FromExtension(a.to_schema()), "storage": storage,
            "parts": lambda: lib.CGeometryDataType.Make(a.geometry_type, a.dimensions, a.coord_type, a.extension_metadata)}[w]()
    say("dtop ok")
def cmd_dtsee(x):
    a = V[x]
    def it(v):
        if not isinstance(v, int): say("!no number")
        return int(v)
    say(f"dtsee t={it(a.id)} g={it(a.geometry_type)} d={it(a.dimensions)} c={it(a.coord_type)} e={it(a.edge_type)} r={it(a.crs_type)} crs={hexs(a.crs)} ext={a.extension_name}")
def cmd_dtstr(x): say("dtstr " + repr(V[x]))
def cmd_dteq(x, y):
    a = V[x] == V[y]
    say(f"dteq {int(a)}")
    if a is (V[x] != V[y]): say("!not the opposite")
def cmd_dtdel(x): del V[x]
def cmd_dtempty(x):
    a = V[x]
    n = 0
    for f in (lambda: a.id, lambda: a.geometry_type, lambda: a.dimensions, lambda: a.coord_type, lambda: a.extension_name, lambda: a.extension_metadata, lambda: a.edge_type, lambda: a.crs_type,
              lambda: a.crs, lambda: a.with_geometry_type(1), lambda: a.with_dimensions(1), lambda: a.with_coord_type(1), lambda: a.with_edge_type(0), lambda: a.with_crs(b"", 0), lambda: a.to_schema(), lambda: a.to_storage_schema()):
        try: f()
        except ValueError: n += 1
    say(f"dtempty {n}")
def cmd_dtconst(name):
    lib_ = sys.modules["geoarrow.c._lib"]
    say(f"dtconst {int(getattr(lib_, name))}")
def cmd_case(name):
    global OUT
    for x in list(V.values()):
        if isinstance(x, Own): x.done()
    x = None
    V.clear(); RAW.clear(); TRACK.clear(); del DEAD[:]
    OUT = []
def cmd_end(op):
    """one line for everything since the last one"""
    global OUT
    d = ",".join(map(str, sorted(DEAD)))
    del DEAD[:]
    print(op, " ".join(OUT), "d=" + d, flush=True)
    OUT = []
def refused(e):
    if isinstance(e, lib.GeoArrowCException):
        return "raised" if isinstance(e.code, int) and e.code != 0 and isinstance(e.what, str) and isinstance(e.message, str) and str(e) else "!raised"
    return "raised" if isinstance(e, (ValueError, BufferError, TypeError, IndexError, OverflowError)) else "!" + type(e).__name__
def main():
    for line in sys.stdin:
        w = line.split()
        if not w: continue
        if w[0] == "case":
            try: cmd_case(*w[1:])
            except Exception as e: pass
            print("case " + w[1], flush=True); continue
        f = globals().get("cmd_" + w[0])
        if f is None: print("!unknown command " + w[0], flush=True); continue
        try: f(*w[1:])
        except Exception as e:
            r = refused(e)
            say(r if not w[0].startswith("dt") else f"{w[0]} {r}")
            if "-v" in sys.argv: import traceback; traceback.print_exc()
            e.__traceback__ = None
        f = None
        if w[0].startswith("dt") and OUT:
            print("\n".join(OUT), flush=True); del OUT[:]
    cmd_case("")
    print("done", flush=True)
main()
