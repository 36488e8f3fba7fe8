"""Sanitizer builds of /repo's current working tree, under /verif/.build.

The tree is mirrored by content (rsync -c without times), so only files whose
content changed get a new time stamp and ninja rebuilds only what depends on
them.  Nothing is written into /repo.
"""
import fcntl, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
VENV = "/opt/roughpy-venv/bin/python"

SAN = {
    # one sanitizer family per build
    "asan": "-fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -fno-omit-frame-pointer",
    "tsan": "-fsanitize=thread -fno-omit-frame-pointer",
}


class BuildError(Exception):
    pass


def _env():
    e = {k: v for k, v in os.environ.items()
         if k in ("HOME", "TMPDIR", "USER", "LOGNAME", "VERIF_SEED", "VERIF_TIER")}
    e.update(PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             LANG="C.UTF-8", CC="gcc", CXX="g++",
             ASAN_OPTIONS="detect_leaks=0")
    e.setdefault("HOME", "/root")
    return e


def _run(cmd, log, timeout):
    with open(log, "ab") as f:
        f.write(("\n$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        try:
            r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=_env(),
                               stdin=subprocess.DEVNULL, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise BuildError("timeout: " + " ".join(cmd))
    if r.returncode:
        tail = subprocess.run(["tail", "-n", "60", log], capture_output=True, text=True).stdout
        raise BuildError("failed: %s\n%s" % (" ".join(cmd), tail))


def mirror():
    src = os.path.join(BUILD, "src")
    os.makedirs(src, exist_ok=True)
    r = subprocess.run(["rsync", "-rlpc", "--delete",
                        "--exclude=/.git", "--exclude=/_build", "--exclude=*.so", "--exclude=*.so.*",
                        "--exclude=/roughpy/version.py", "--exclude=__pycache__", "--exclude=.pytest_cache",
                        REPO + "/", src + "/"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("rsync: " + r.stderr)
    return src


def _configure(kind, src, bdir, log):
    flags = SAN[kind]
    pylib = "ON" if kind == "asan" else "OFF"
    cmd = ["cmake", "-S", src, "-B", bdir, "-G", "Ninja",
           "-DCMAKE_BUILD_TYPE=Release",
           "-DCMAKE_CXX_FLAGS_RELEASE=-O1 -g1 -DNDEBUG", "-DCMAKE_C_FLAGS_RELEASE=-O1 -g1 -DNDEBUG",
           "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_C_FLAGS=" + flags,
           "-DCMAKE_SHARED_LINKER_FLAGS=" + flags, "-DCMAKE_EXE_LINKER_FLAGS=" + flags,
           "-DCMAKE_MODULE_LINKER_FLAGS=" + flags,
           "-DROUGHPY_NO_VCPKG=ON", "-DROUGHPY_BUILD_TESTS=OFF", "-DROUGHPY_BUILD_PYLIB=" + pylib,
           "-DROUGHPY_EXPERIMENTAL=ON", "-DROUGHPY_USE_CCACHE=OFF",
           "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DCMAKE_PREFIX_PATH=/opt/vp/cmake",
           "-DCMAKE_PROJECT_RoughPy_INCLUDE=" + os.path.join(VERIF, "harness", "inject.cmake"),
           "-DVP_HARNESS_DIR=" + os.path.join(VERIF, "harness"),
           "-DPCGRandom_INCLUDE_DIRS=/opt/vp/cmake/include",
           "-DPython_ROOT_DIR=/opt/roughpy-venv", "-DPython_EXECUTABLE=" + VENV]
    _run(cmd, log, 300)


def ensure(kind, targets, quiet=True):
    """Bring the given targets of the given sanitizer build up to date with /repo."""
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = mirror()
        bdir = os.path.join(BUILD, kind)
        log = os.path.join(BUILD, kind + ".log")
        if os.path.exists(log) and os.path.getsize(log) > 20_000_000:
            os.unlink(log)
        if not os.path.exists(os.path.join(bdir, "build.ninja")):
            shutil.rmtree(bdir, ignore_errors=True)
            _configure(kind, src, bdir, log)
        _run(["ninja", "-C", bdir, "-j", str(os.cpu_count() or 8)] + list(targets), log, 1500)
        if kind == "asan":
            _package(src, bdir)
    return dict(dir=bdir, seconds=round(time.time() - t0, 1))


def _package(src, bdir):
    """Importable package: the mirrored Python sources and the sanitized extension."""
    pkg = os.path.join(BUILD, "pkg", "roughpy")
    os.makedirs(pkg, exist_ok=True)
    r = subprocess.run(["rsync", "-rlc", "--delete", "--exclude=/src", "--exclude=/compute", "--exclude=*.so",
                        "--exclude=__pycache__", "--include=*/", "--include=*.py", "--exclude=*",
                        os.path.join(src, "roughpy") + "/", pkg + "/"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("rsync: " + r.stderr)
    import glob
    for so in glob.glob(os.path.join(bdir, "roughpy", "_roughpy*.so")):
        dst = os.path.join(pkg, os.path.basename(so))
        if os.path.islink(dst) or os.path.exists(dst):
            if os.path.islink(dst) and os.readlink(dst) == so:
                continue
            os.unlink(dst)
        os.symlink(so, dst)


def py_env():
    """Environment of the sanitized interpreter."""
    def lib(n):
        return subprocess.run(["gcc", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()
    e = _env()
    e.update(LD_PRELOAD=lib("libasan.so") + ":" + lib("libubsan.so"),
             ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
                          "handle_segv=1:detect_stack_use_after_return=1:max_allocation_size_mb=4096",
             UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77",
             PYTHONPATH=os.path.join(BUILD, "pkg"), PYTHONMALLOC="malloc",
             PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    return e


def bin_env(kind):
    e = _env()
    if kind == "asan":
        e.update(ASAN_OPTIONS="detect_leaks=1:halt_on_error=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1",
                 UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77")
    else:
        e.update(TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4")
    return e


def find_program(bdir, name):
    import glob
    hits = [p for p in glob.glob(os.path.join(bdir, "**", name), recursive=True) if os.path.isfile(p)]
    if not hits:
        raise BuildError("no program " + name)
    return hits[0]


TARGETS = {"asan": ["RoughPy_PyModule"], "tsan": []}


def harness_targets(kind):
    """Harness programs name their builds in a first line '// builds: asan tsan'."""
    import glob
    res = []
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.cpp"))):
        if kind in open(f).readline().replace("// builds:", "").split():
            res.append("vp_" + os.path.basename(f)[:-4])
    return res


if __name__ == "__main__":
    for k in sys.argv[1:] or ["asan", "tsan"]:
        ts = TARGETS[k] + harness_targets(k)
        if ts:
            print(k, ts, ensure(k, ts))
