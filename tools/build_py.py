"""Builds the Python extension of /repo's working tree in a scratch tree of its own (the files
are laid out by /repo's own bootstrap.py) and a starter for harness/pyvm.py."""
import concurrent.futures as cf, glob, os, shutil, subprocess, sys, sysconfig
import build as B
PY = "/opt/vp/venv/bin/python"
def build():
    os.makedirs(B.OUT, exist_ok=True)
    pkg = f"{B.REPO}/python/geoarrow-c"
    files = [f for f in glob.glob(f"{B.REPO}/src/geoarrow/**/*", recursive=True) + glob.glob(f"{B.REPO}/src/vendor/nanoarrow/*") if os.path.isfile(f) and not f.endswith("_test.cc")]
    mine = [f for f in glob.glob(f"{pkg}/src/geoarrow/c/*") + glob.glob(f"{pkg}/src/geoarrow/c/geoarrow_python/*") if f.endswith((".py", ".pyx", ".pxd", ".h"))]
    d = f"{B.OUT}/py_" + B._digest(files + mine + [f"{pkg}/bootstrap.py", __file__], "py")
    exe = d + "/run"
    vm = f"{B.ROOT}/harness/pyvm.py"
    if not os.path.exists(exe):
        t = f"{d}.{os.getpid()}"
        shutil.rmtree(t, ignore_errors=True)
        for f in files + mine + [f"{pkg}/bootstrap.py"]:
            o = t + "/tree/" + os.path.relpath(f, B.REPO)
            os.makedirs(os.path.dirname(o), exist_ok=True); shutil.copyfile(f, o)
        p = t + "/tree/python/geoarrow-c"
        def sh(*c):
            r = subprocess.run(c, capture_output=True, text=True)
            if r.returncode: raise SystemExit(f"BUILD FAILED: {' '.join(c)}\n{(r.stdout + r.stderr)[-4000:]}")
            return r.stdout
        sh(PY, p + "/bootstrap.py")
        c = p + "/src/geoarrow/c"
        sh(PY, "-m", "cython", "-3", "--module-name", "geoarrow.c._lib", "--cplus", c + "/_lib.pyx", "-o", c + "/_lib.cpp")
        py = sh(PY, "-c", "import sysconfig; print(sysconfig.get_paths()['include']); print(sysconfig.get_config_var('EXT_SUFFIX'))").split()
        flags = ["-g1", "-O1", "-fno-omit-frame-pointer", "-fPIC", "-fsanitize=address", "-w", "-DGEOARROW_NAMESPACE=GeoArrowPythonPkg", "-DNANOARROW_NAMESPACE=GeoArrowPythonPkg",
                 "-I" + c, "-I" + c + "/geoarrow", "-I" + c + "/geoarrow_python", "-I" + py[0]]
        src = [c + "/_lib.cpp"] + [f for g in ("*.c", "*.cc", "ryu/*.c", "nanoarrow/*.c") for f in sorted(glob.glob(c + "/geoarrow/" + g))]
        def one(f):
            o = f + ".o"
            if f.endswith(".c"): sh("gcc", *flags, "-c", f, "-o", o)
            else: sh("g++", "-std=c++17", *[("-O0" if x == "-O1" and f.endswith("_lib.cpp") else x) for x in flags], "-c", f, "-o", o)
            return o
        with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, src))
        os.makedirs(t + "/lib/geoarrow/c")
        for f in mine:
            if f.endswith(".py"): shutil.copyfile(f, t + "/lib/geoarrow/c/" + os.path.basename(f))
        if not os.path.exists(t + "/lib/geoarrow/c/_version.py"):
            open(t + "/lib/geoarrow/c/_version.py", "w").write("__version__ = version = '0'\n__version_tuple__ = version_tuple = (0,)\n")
        sh("g++", "-shared", "-fsanitize=address", *objs, "-o", t + "/lib/geoarrow/c/_lib" + py[1])
        asan = sh("gcc", "-print-file-name=libasan.so").strip()
        std = sh("gcc", "-print-file-name=libstdc++.so").strip()
        shutil.rmtree(t + "/tree")
        with open(t + "/run", "w") as f:
            f.write(f'#!/bin/sh\nASAN_OPTIONS="$ASAN_OPTIONS:detect_leaks=0:detect_stack_use_after_return=0" LD_PRELOAD="{asan} {std}" PYTHONMALLOC=malloc PYTHONDONTWRITEBYTECODE=1 '
                    f'OPENBLAS_NUM_THREADS=1 PYTHONPATH={d}/lib exec {PY} -s {vm} "$@"\n')
        os.chmod(t + "/run", 0o755)
        shutil.rmtree(d, ignore_errors=True)
        os.rename(t, d)
    return exe
if __name__ == "__main__": print(build())
