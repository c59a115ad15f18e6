"""Out-of-tree builds of /repo's current working tree.

Each variant is keyed by a hash over every source file and the flags, and kept
under /verif/.build (git-ignored).  Nothing is written under /repo.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

VARIANTS = {
    # name: (compiler, flags, shim flags)
    "plain": ("g++", ["-O1", "-g1"], []),
    "scan": ("g++", ["-O1", "-g1"], ["-DVSHIM_SCAN"]),
    "asan": ("g++", ["-O1", "-g1", "-fsanitize=address,undefined",
                     "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all",
                     "-fno-omit-frame-pointer"], []),
    "dbg": ("g++", ["-O0", "-g"], []),
    "tsan": ("g++", ["-O1", "-g1", "-fsanitize=thread"], []),
}


class BuildError(Exception):
    pass


def sources():
    out = []
    for pat in ("src/*.cpp", "src/*/*.cpp", "cybozu/*.cpp"):
        out += sorted(glob.glob(os.path.join(REPO, pat)))
    return out


def _headers():
    out = []
    for pat in ("src/*.hpp", "src/*/*.hpp", "cybozu/*.hpp", "COPYING"):
        out += sorted(glob.glob(os.path.join(REPO, pat)))
    return out


def tree_hash(extra=()):
    h = hashlib.sha256()
    for f in sources() + _headers() + list(extra):
        h.update(os.path.relpath(f, "/").encode() + b"\0")
        with open(f, "rb") as fp:
            h.update(hashlib.sha256(fp.read()).digest())
    return h


def cacheline():
    try:
        v = subprocess.run(["getconf", "LEVEL1_DCACHE_LINESIZE"],
                           capture_output=True, text=True).stdout.strip()
        n = int(v or "0")
    except Exception:
        n = 0
    return n or 32


def base_flags():
    return ["-std=gnu++17", "-I" + REPO, "-DCACHELINE_SIZE=%d" % cacheline(),
            "-DDEFAULT_CONFIG=/nonexistent/yrmcds.conf", "-w"]


def _run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))


def _compile_all(cxx, flags, files, outdir):
    objs = []
    jobs = []
    for f in files:
        o = os.path.join(outdir, os.path.abspath(f).strip("/").replace("/", "_") + ".o")
        objs.append(o)
        jobs.append([cxx] + flags + ["-c", f, "-o", o])
    # longest first
    jobs.sort(key=lambda c: -os.path.getsize(c[-3]))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for r in [ex.submit(_run, j) for j in jobs]:
            r.result()
    return objs


def _locked(d):
    os.makedirs(d, exist_ok=True)
    fp = open(os.path.join(d, ".lock"), "w")
    fcntl.flock(fp, fcntl.LOCK_EX)
    return fp


def _prune(keep):
    """Drop old build directories (keep the newest few)."""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
        ds = [d for d in ds if os.path.isdir(d) and d != keep]
        ds.sort(key=os.path.getmtime, reverse=True)
        for d in ds[24:]:
            if time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def server(variant="plain"):
    """Build yrmcdsd (with the shim linked in); return the path."""
    cxx, flags, shimflags = VARIANTS[variant]
    shim = os.path.join(VERIF, "native", "shim.cpp")
    h = tree_hash([shim, os.path.abspath(__file__)])
    h.update(variant.encode() + " ".join(flags).encode())
    d = os.path.join(BUILD, "srv-%s-%s" % (variant, h.hexdigest()[:16]))
    exe = os.path.join(d, "yrmcdsd")
    if os.path.exists(exe):
        return exe
    lock = _locked(d)
    try:
        if os.path.exists(exe):
            return exe
        # main.cpp includes "../COPYING.hpp" relative to src/: the generated
        # file is ignored by git in /repo, so provide our own next to a copy
        # of main.cpp.
        gen = os.path.join(d, "gen")
        os.makedirs(os.path.join(gen, "src"), exist_ok=True)
        with open(os.path.join(REPO, "COPYING"), encoding="utf-8",
                  errors="replace") as fp:
            text = fp.read()
        with open(os.path.join(gen, "COPYING.hpp"), "w") as fp:
            fp.write('static char COPYING[] = R"(' + text + ')";\n')
        files = [f for f in sources() if os.path.basename(f) != "main.cpp"
                 or os.path.dirname(f) != os.path.join(REPO, "src")]
        main_copy = os.path.join(gen, "src", "main.cpp")
        shutil.copy(os.path.join(REPO, "src", "main.cpp"), main_copy)
        fl = base_flags() + flags
        fl_main = fl + ["-I" + os.path.join(REPO, "src")]
        objs = _compile_all(cxx, fl_main, files + [main_copy], d)
        so = os.path.join(d, "shim.o")
        _run([cxx, "-std=gnu++17", "-O2", "-fno-builtin", "-w"] + shimflags +
             ["-c", shim, "-o", so])
        tmp = exe + ".tmp"
        _run([cxx] + flags + objs + [so, "-o", tmp, "-latomic", "-lpthread", "-ldl"])
        os.rename(tmp, exe)
        for o in objs:
            os.unlink(o)
    finally:
        lock.close()
    _prune(d)
    return exe


def driver(name, srcs, cxx="g++", flags=(), ldflags=(), repo_files=None):
    """Build a native driver against /repo's sources (without main.cpp)."""
    h = tree_hash(list(srcs) + [os.path.abspath(__file__)])
    h.update((name + cxx + " ".join(flags) + " ".join(ldflags)).encode())
    d = os.path.join(BUILD, "drv-%s-%s" % (name, h.hexdigest()[:16]))
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        return exe
    lock = _locked(d)
    try:
        if os.path.exists(exe):
            return exe
        files = repo_files
        if files is None:
            files = [f for f in sources() if os.path.basename(f) != "main.cpp"]
        fl = base_flags() + list(flags)
        objs = _compile_all(cxx, fl, list(files) + list(srcs), d)
        tmp = exe + ".tmp"
        _run([cxx] + list(flags) + objs + ["-o", tmp] + list(ldflags) +
             ["-latomic", "-lpthread", "-ldl"])
        os.rename(tmp, exe)
        for o in objs:
            os.unlink(o)
    finally:
        lock.close()
    _prune(d)
    return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        t = time.time()
        print(server(v), "%.1fs" % (time.time() - t))
