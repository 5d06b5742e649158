"""Builds the library from /repo's current working tree plus the replay harness.

Variants: "asan" (clang, address+undefined, RYU and fast_float on), "std" (the same
sanitizers with the libc number back ends).  Objects are cached under /verif/.build,
keyed by the content of everything that goes into them."""
import concurrent.futures as cf, glob, hashlib, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(ROOT, ".build")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,nonnull-attribute,pointer-overflow",
       "-fno-sanitize-recover=undefined"]

def _config_h(dirname, ryu, ff):
    import re
    src = open(f"{REPO}/src/geoarrow/geoarrow_config.h.in").read()
    cm = open(f"{REPO}/CMakeLists.txt").read()
    m = re.search(r'set\(GEOARROW_VERSION "(\d+)\.(\d+)\.(\d+)([^"]*)"\)', cm) or \
        re.search(r'VERSION (\d+)\.(\d+)\.(\d+)()', cm)
    v = m.groups() if m else ("0", "2", "0", "-SNAPSHOT")
    rep = {"GEOARROW_VERSION_MAJOR": v[0], "GEOARROW_VERSION_MINOR": v[1], "GEOARROW_VERSION_PATCH": v[2],
           "GEOARROW_VERSION": f"{v[0]}.{v[1]}.{v[2]}{v[3]}",
           "GEOARROW_USE_FAST_FLOAT_DEFINE": f"#define GEOARROW_USE_FAST_FLOAT {ff}",
           "GEOARROW_USE_RYU_DEFINE": f"#define GEOARROW_USE_RYU {ryu}",
           "GEOARROW_NAMESPACE_DEFINE": "// none"}
    for k, x in rep.items(): src = src.replace(f"@{k}@", x)
    os.makedirs(f"{dirname}/geoarrow", exist_ok=True)
    p = f"{dirname}/geoarrow/geoarrow_config.h"
    if not os.path.exists(p) or open(p).read() != src: open(p, "w").write(src)

def _digest(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:24]

OPTIONAL = ("lifepp.cc", "cppwrap.cc", "cviews.cc", "dtypes.cc", "cpp_wkb.cc")     # instantiate header-only C++ code
WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=ArrowArrayInitFromSchema,--wrap=ArrowArrayAllocateChildren"]          # life.cc
def build(variant="asan", harness=("vm.cc", "more.cc", "cpp_wkb.cc", "arrays.cc", "numbers.cc", "rows.cc", "kernels.cc", "types.cc", "meta.cc", "dtypes.cc", "cviews.cc", "life.cc", "lifepp.cc", "cppwrap.cc", "ctypes.c"), name="vm", extra=()):
    os.makedirs(OUT, exist_ok=True)
    on = 0 if variant == "std" else 1
    inc = f"{OUT}/inc_{variant}"
    _config_h(inc, on, on)
    src = REPO + "/src"
    csrc = [f for f in sorted(glob.glob(f"{src}/geoarrow/*.c"))]
    ccsrc = [f for f in sorted(glob.glob(f"{src}/geoarrow/*.cc")) if not f.endswith("_test.cc")]
    csrc += [f"{src}/vendor/nanoarrow/nanoarrow.c"]
    if on: csrc += sorted(glob.glob(f"{src}/geoarrow/ryu/*.c"))
    headers = glob.glob(f"{src}/geoarrow/*.h") + glob.glob(f"{src}/geoarrow/hpp/*.hpp") + glob.glob(f"{src}/geoarrow/*.hpp") \
        + glob.glob(f"{src}/vendor/nanoarrow/*.h*") + glob.glob(f"{src}/geoarrow/ryu/*.h") + [f"{inc}/geoarrow/geoarrow_config.h"]
    hh = glob.glob(f"{ROOT}/harness/*.h")
    flags = ["-g", "-O1", "-fno-omit-frame-pointer", f"-I{inc}", f"-I{src}", f"-I{src}/vendor", *extra]
    san = SAN if variant in ("asan", "std") else []
    hd = _digest(headers, variant + " ".join(flags + san))
    hdc = _digest([h for h in headers if h.endswith(".h")], variant + " ".join(flags + san))
    jobs, objs = [], []
    for f in csrc + ccsrc + [f"{ROOT}/harness/{x}" for x in harness]:
        ish = f.startswith(ROOT + "/harness")
        cxx = f.endswith(".cc")
        key = _digest([f] + (hh if ish else []), hd if cxx else hdc)
        o = f"{OUT}/{os.path.basename(f)}.{key}.o"
        objs.append(o)
        if not os.path.exists(o):
            cmd = ["clang++", "-std=c++17"] if cxx else ["clang", "-std=c11"]
            jobs.append(cmd + flags + san + ["-w", "-c", f, "-o", o + f".{os.getpid()}.tmp"])
    def run(c):
        r = subprocess.run(c, capture_output=True, text=True)
        if r.returncode and os.path.basename(c[-3]) in OPTIONAL:      # only the checks that use it are affected
            sys.stderr.write(f"not built: {c[-3]}\n{r.stderr[:2000]}\n"); objs.remove(c[-1].rsplit(".", 2)[0]); return
        if r.returncode: raise SystemExit(f"BUILD FAILED: {' '.join(c)}\n{r.stderr[:4000]}")
        os.replace(c[-1], c[-1].rsplit(".", 2)[0])
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(run, jobs))
    exe = f"{OUT}/{name}_{variant}_{_digest([], ' '.join(objs))}"
    if not os.path.exists(exe):
        r = subprocess.run(["clang++", *san, *objs, *WRAP, "-o", exe + f".{os.getpid()}"], capture_output=True, text=True)
        if r.returncode: raise SystemExit("LINK FAILED\n" + r.stderr[:4000])
        os.replace(exe + f".{os.getpid()}", exe)
    return exe

if __name__ == "__main__":
    if sys.argv[1:2] == ["setup"]:
        for v in ("asan", "std"): print(build(v))
    else: print(build(*(sys.argv[1:2] or ["asan"])))
