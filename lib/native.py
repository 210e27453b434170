"""Builds pytorch3d._C from /repo's current working tree, outside /repo.

The object cache (ccache, content addressed) and the linked libraries live in
/verif/.build, keyed by the content of every file under pytorch3d/csrc and the
flags, so an edit to any native source is always rebuilt and an unchanged tree
costs a hash.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import subprocess
import sys
import sysconfig
import time

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
CSRC = os.path.join(REPO, "pytorch3d", "csrc")
SITE = "/opt/venv/lib/python3.12/site-packages"
TORCH = os.path.join(SITE, "torch")

VARIANTS = {
    # as setup.py builds it (distutils' -O2 -DNDEBUG), minus debug info
    "plain": (["-DNDEBUG", "-O2"], []),
    # halt on the first report; vptr needs RTTI from libtorch, alignment of
    # at::TensorAccessor data is checked by UBSan itself
    "asan": (
        ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
         "-fsanitize=float-cast-overflow", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined",
         "-D_GLIBCXX_ASSERTIONS"],
        ["-fsanitize=address,undefined"],
    ),
    "tsan": (
        ["-DNDEBUG", "-O1", "-g1", "-fsanitize=thread"],
        ["-fsanitize=thread"],
    ),
}


ACCESSOR = "include/ATen/core/TensorAccessor.h"
_REPORT = """
extern "C" void __sanitizer_print_stack_trace(void);
namespace at { namespace verif_detail {
[[noreturn]] inline void out_of_bounds(long long i, long long n) {
  std::fprintf(stderr, "==VERIF== ERROR: tensor accessor indexed with %lld in a dimension of size %lld\\n", i, n);
  __sanitizer_print_stack_trace();
  std::fflush(stderr);
  _exit(99);
}
template <typename I> inline void bounds(I i, I n) {
  if (i < 0 || i >= n) out_of_bounds((long long)i, (long long)n);
}
}}
"""


def checked_accessor():
    """torch's TensorAccessor.h with every index checked against its dimension,
    so that an index that leaves its row is seen even inside the allocation."""
    import re
    src = open(os.path.join(TORCH, ACCESSOR)).read()
    src, n = re.subn(
        r"(operator\[\]\(index_t i\)(?: const)? \{)",
        r"\1 ::at::verif_detail::bounds<index_t>(i, this->sizes_[0]);", src)
    assert n == 8, n
    at = src.index("namespace at {")
    return src[:at] + "#include <cstdio>\n#include <unistd.h>\n" + _REPORT + src[at:]


def _checked_include(variant):
    if variant != "asan":
        return []
    text = checked_accessor()
    d = os.path.join(BUILD, "include-" + hashlib.sha256(text.encode()).hexdigest()[:12])
    p = os.path.join(d, "ATen", "core", "TensorAccessor.h")
    if not os.path.exists(p):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        tmp = f"{p}.{os.getpid()}"
        with open(tmp, "w") as f:
            f.write(text)
        os.rename(tmp, p)
    return ["-I" + d]


def _cflags():
    inc = os.path.join(TORCH, "include")
    return [
        "-fno-strict-overflow", "-fPIC", "-w",
        f"-I{CSRC}", f"-I{inc}", f"-I{inc}/torch/csrc/api/include",
        f"-I{inc}/TH", f"-I{inc}/THC", "-I/opt/venv/include",
        "-I" + sysconfig.get_paths()["include"],
        "-std=c++17", "-DTORCH_API_INCLUDE_EXTENSION_H",
        '-DPYBIND11_COMPILER_TYPE="_gcc"', '-DPYBIND11_STDLIB="_libstdcpp"',
        '-DPYBIND11_BUILD_ABI="_cxxabi1011"', "-DTORCH_EXTENSION_NAME=_C",
        "-D_GLIBCXX_USE_CXX11_ABI=0",
    ]


def source_files():
    out = []
    for dirpath, dirs, files in os.walk(CSRC):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith((".cu", ".cuh", ".hip")):
                out.append(os.path.join(dirpath, f))
    return out


def sources_digest(variant):
    h = hashlib.sha256(repr((VARIANTS[variant], _checked_include(variant))).encode())
    for p in source_files():
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def env():
    e = dict(os.environ)
    e.update(
        CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_NOHASHDIR="1",
        CCACHE_MAXSIZE="3G", LANG="C.UTF-8",
        PATH="/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin",
    )
    return e


class BuildError(RuntimeError):
    pass


def build(variant="plain", allow_stale=False, log=sys.stderr):
    """Returns the path of the built library for the current tree.

    allow_stale: a check that decides a pure-Python property only needs some
    working _C to import the package; it may take the newest existing one.
    """
    os.makedirs(BUILD, exist_ok=True)
    digest = sources_digest(variant)
    outdir = os.path.join(BUILD, variant, digest)
    so = os.path.join(outdir, "_C.so")
    if os.path.exists(so):
        return so
    if allow_stale:
        olds = sorted(glob.glob(os.path.join(BUILD, variant, "*", "_C.so")),
                      key=os.path.getmtime)
        if olds:
            return olds[-1]
    with open(os.path.join(BUILD, f"{variant}.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(so):
            return so
        t0 = time.time()
        objdir = os.path.join(outdir, "obj")
        os.makedirs(objdir, exist_ok=True)
        comp, link = VARIANTS[variant]
        cpps = [p for p in source_files() if p.endswith(".cpp")]

        def one(p):
            o = os.path.join(objdir, os.path.relpath(p, CSRC).replace("/", "_") + ".o")
            cmd = ["ccache", "g++", *comp, *_checked_include(variant), *_cflags(), "-c", p, "-o", o]
            r = subprocess.run(cmd, env=env(), cwd="/", capture_output=True, text=True)
            if r.returncode:
                raise BuildError(f"{p}:\n{r.stderr[-4000:]}")
            return o

        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            objs = list(ex.map(one, cpps))
        tmp = so + ".tmp"
        cmd = ["g++", "-shared", *objs, f"-L{TORCH}/lib", f"-Wl,-rpath,{TORCH}/lib",
               "-lc10", "-ltorch", "-ltorch_cpu", "-ltorch_python", *link, "-o", tmp]
        r = subprocess.run(cmd, env=env(), cwd="/", capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-4000:])
        os.rename(tmp, so)
        for o in objs:
            os.unlink(o)
        print(f"[native] built {variant} in {time.time() - t0:.1f}s", file=log)
    return so


def san_log(pid):
    return os.path.join(os.environ.get("VERIF_SANLOG", BUILD), str(pid))


def reexec_under(variant):
    """Restarts this process with the sanitizer's runtime loaded first."""
    import shutil
    lib = {"asan": "libasan.so", "tsan": "libtsan.so"}[variant]
    # libstdc++ too: the runtime looks up the real __cxa_throw when it starts
    path = ":".join(
        subprocess.run(["g++", f"-print-file-name={f}"], capture_output=True, text=True,
                       env=env()).stdout.strip() for f in (lib, "libstdc++.so.6"))
    d = os.path.join(BUILD, "sanlog", str(os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    common = "exitcode=99:allocator_may_return_null=1:handle_segv=1"
    e = dict(os.environ, VERIF_SAN=variant, VERIF_SANLOG=d, LD_PRELOAD=path)
    e["ASAN_OPTIONS"] = common + ":detect_leaks=0:abort_on_error=0:halt_on_error=1:detect_stack_use_after_return=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    e["TSAN_OPTIONS"] = common + ":halt_on_error=1:die_after_fork=0:history_size=4"
    argv = [sys.executable] + sys.argv
    if variant == "tsan" and subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0:
        argv = ["setarch", "-R"] + argv  # gcc 13's runtime needs the classic layout
    sys.stdout.flush()
    os.execvpe(argv[0], argv, e)


def load(so):
    """Imports pytorch3d from /repo with its native module replaced by `so`."""
    import importlib.machinery
    import importlib.util
    import torch  # noqa: F401  brings libc10

    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    loader = importlib.machinery.ExtensionFileLoader("pytorch3d._C", so)
    spec = importlib.util.spec_from_file_location("pytorch3d._C", so, loader=loader)
    import pytorch3d
    mod = importlib.util.module_from_spec(spec)
    sys.modules["pytorch3d._C"] = mod
    loader.exec_module(mod)
    pytorch3d._C = mod
    assert pytorch3d.__file__.startswith(REPO + "/"), pytorch3d.__file__
    return mod


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(build(v))
