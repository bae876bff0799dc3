#!/usr/bin/env python3
"""Rebuilds what a check needs from /repo's current working tree, outside /repo.

Objects are cached in /verif/.cache by the hash of their preprocessed source (no line markers, so a
comment does not matter), the flags and the compiler; the cache is only an accelerator, a check works
without it."""
import hashlib, os, re, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
CXX = "g++"
ENV = dict(os.environ, LC_ALL="C.UTF-8")
for v in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPPFLAGS"):
    ENV.pop(v, None)
# the repository's own numeric flags (cmake/...), at -O1
BASE = ["-std=c++11", "-fPIC", "-fopenmp", "-O1", "-DNDEBUG", "-mfpmath=sse", "-frounding-math",
        "-fno-finite-math-only", "-fsignaling-nans", "-fpermissive", "-w"]
BE_FLAGS = {
    "SSE2": ["-msse2", "-DUSE_SSE2", "-DOTFFT_NAMESPACE=OTFFT_SSE2"],
    "AVX": ["-mavx", "-DUSE_AVX", "-DOTFFT_NAMESPACE=OTFFT_AVX"],
    "AVX2": ["-mavx2", "-DUSE_AVX2", "-DOTFFT_NAMESPACE=OTFFT_AVX2"],
}
COMMON = ["-DUSE_SSE2", "-DUSE_AVX", "-DUSE_AVX2"]
BACKENDS = ["SSE2", "AVX", "AVX2"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, **kw)


def gen_config():
    """our own copy of the generated header (only used if the tree has none)"""
    d = os.path.join(CACHE, "gen")
    os.makedirs(d, exist_ok=True)
    src = open(os.path.join(REPO, "src/otfft_config.h.in")).read()
    out = re.sub(r"#cmakedefine\s+(\w+)", r"#define \1", src)
    p = os.path.join(d, "otfft_config.h")
    if not os.path.exists(p) or open(p).read() != out:
        with open(p + ".tmp%d" % os.getpid(), "w") as f:
            f.write(out)
        os.replace(p + ".tmp%d" % os.getpid(), p)
    return d


_inc = None
_lock = threading.Lock()


def includes():
    global _inc
    with _lock:
        if _inc is None:
            _inc = _includes()
    return _inc


def _includes():
    # the generated directory comes first: the generated header of the tree may be missing
    return ["-I" + gen_config(), "-I" + os.path.join(REPO, "inc"), "-I" + os.path.join(REPO, "src")]


def sources():
    """(common sources, per-backend sources), as CMakeLists.txt lists them, else by name"""
    common, algo = [], []
    try:
        cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
        m = re.search(r"set\(\s*OTFFT_SOURCE_FILES\s+([^)]*)\)", cm)
        common = m.group(1).split()
        m = re.search(r"set\(\s*OTFFT_SOURCE_FILES_ALGO\s+([^)]*)\)", cm)
        algo = m.group(1).split()
    except Exception:
        pass
    if not common or not algo:
        fs = sorted("src/" + f for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".cpp"))
        common = [f for f in fs if f == "src/otfft.cpp"]
        algo = [f for f in fs if f != "src/otfft.cpp"]
    return common, algo


_ccver = None


def ccver():
    global _ccver
    if _ccver is None:
        _ccver = run([CXX, "--version"]).stdout
    return _ccver


def compile_one(src, flags, tag):
    """compile one source, return the object's path"""
    os.makedirs(CACHE, exist_ok=True)
    r = run([CXX] + flags + includes() + ["-E", "-P", src])
    if r.returncode:
        raise BuildError("preprocessing %s failed:\n%s" % (src, r.stderr.decode()[-3000:]))
    h = hashlib.sha256()
    h.update(ccver()); h.update("\0".join(flags).encode()); h.update(r.stdout)
    obj = os.path.join(CACHE, "%s-%s-%s.o" % (os.path.basename(src).replace(".cpp", "").replace(".c", ""), tag, h.hexdigest()[:24]))
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    r = run([CXX] + flags + includes() + ["-c", src, "-o", tmp])
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stderr.decode()[-3000:]))
    os.replace(tmp, obj)
    return obj


# slow ones first
ORDER = ["dit16", "dif16", "sixstep", "dit8", "dif8", "mixed", "dit4", "dif4"]


def prio(s):
    for i, k in enumerate(ORDER):
        if k in s:
            return i
    return 99


def lib_objects(backends=BACKENDS, extra=(), tag="p", skip=("dit16",), common=True, jobs=8):
    """library objects for the back ends; sources whose name has a part in `skip` are left out unless needed"""
    com, algo = sources()
    tasks = []
    for be in backends:
        for s in algo:
            if not any(k in s for k in skip):
                tasks.append((s, BASE + BE_FLAGS[be] + list(extra), be + tag))
    if common:
        for s in com:
            tasks.append((s, BASE + COMMON + list(extra), "common" + tag))
    tasks.sort(key=lambda t: prio(t[0]))
    with ThreadPoolExecutor(jobs) as ex:
        objs = list(ex.map(lambda t: compile_one(os.path.join(REPO, t[0]), t[1], t[2]), tasks))
    if skip:
        # does any object refer to something that is in a skipped source?
        names = [os.path.basename(s) for s in algo if any(k in s for k in skip)]
        r = run(["nm", "-uC"] + objs)
        text = r.stdout.decode(errors="replace")
        need = "DIT16" in text
        if need:
            return lib_objects(backends, extra, tag, (), common, jobs)
    return objs


def driver_objects(files, flags, tag):
    return [compile_one(os.path.join(VERIF, "driver", f), list(flags), tag) for f in files]


def link(objs, out, flags=()):
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = run([CXX] + list(objs) + list(flags) + ["-o", out])
    if r.returncode:
        raise BuildError("link failed:\n" + r.stderr.decode()[-4000:])
    return out


WRAPS = ["malloc", "free", "calloc", "realloc", "posix_memalign", "aligned_alloc", "memalign", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "pthread_once"]
WRAPFLAGS = ["-Wl,--wrap=" + w for w in WRAPS]

SCHEDWRAPS = WRAPFLAGS + ["-Wl,--wrap=pthread_mutex_" + w for w in ("lock", "trylock", "unlock")]
# instrumented objects: every access and every OpenMP call goes to driver/sched.cpp
TSAN = ["-fsanitize=thread", "--param=tsan-distinguish-volatile=0", "-g0"]
MEM = ["memcpy", "memmove", "memset"]


def sched_objects(backends=BACKENDS):
    objs = lib_objects(backends, TSAN, "t")
    out = []
    for o in objs:
        q = o[:-2] + ".r.o"
        if not os.path.exists(q):
            t = q + ".%d.tmp" % os.getpid()
            r = run(["objcopy"] + [a for m in MEM for a in ("--redefine-sym", "%s=sch_%s" % (m, m))] + [o, t])
            if r.returncode:
                raise BuildError("objcopy failed: " + r.stderr.decode())
            os.replace(t, q)
        out.append(q)
    return out


if __name__ == "__main__":
    import time
    t = time.time()
    o = lib_objects() + sched_objects()
    print(len(o), "objects", round(time.time() - t, 1), "s")
