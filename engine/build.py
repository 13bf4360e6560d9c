"""Builds the analysed program: bitcode of every non-test translation unit of
/repo/tcmalloc (current working tree), linked into one module, plus the
extractor (irx).  Nothing is executed except compilers and the extractor."""
import hashlib, os, subprocess, sys, glob, shutil, json, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
SKIP_SUFFIX = ("_test.cc", "_fuzz.cc", "_benchmark.cc")
# Alternative strong definitions of weak configuration hooks and weak
# fallbacks of symbols that tcmalloc.cc defines strongly: analysed as separate
# modules, never linked into the main one.
SEPARATE = ("want_", "enable_heap_partitioning", "alloc_at_least.cc")

BASE_FLAGS = ["-std=c++17", "-w", "-D__restrict__=", "-fno-exceptions",
              "-O1", "-Xclang", "-disable-llvm-passes", "-g",
              "-fno-discard-value-names",
              "-I" + os.path.join(HERE, "shim"),
              "-include", os.path.join(HERE, "shim", "prelude.h")]
CONFIGS = {
    "release": ["-DNDEBUG", "-DTCMALLOC_INTERNAL_8K_PAGES"],
    "debug": ["-UNDEBUG", "-DTCMALLOC_INTERNAL_8K_PAGES"],
    "small": ["-DNDEBUG", "-DTCMALLOC_INTERNAL_SMALL_BUT_SLOW"],
    "numa": ["-DNDEBUG", "-DTCMALLOC_INTERNAL_8K_PAGES",
             "-DTCMALLOC_INTERNAL_NUMA_AWARE"],
    "p256k": ["-DNDEBUG", "-DTCMALLOC_INTERNAL_256K_PAGES"],
    "p32k": ["-DNDEBUG", "-DTCMALLOC_INTERNAL_32K_PAGES"],
}


class BuildError(Exception):
    pass


def sources():
    out = []
    for d in ("tcmalloc", "tcmalloc/internal"):
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cc"))):
            b = os.path.basename(f)
            if b.endswith(SKIP_SUFFIX) or b.startswith("mock_"):
                continue
            out.append(f)
    return out


def drivers():
    return sorted(glob.glob(os.path.join(HERE, "drivers", "*.cc")))


def _inputs():
    fs = []
    for d in ("tcmalloc", "tcmalloc/internal"):
        for pat in ("*.cc", "*.h", "*.inc", "*.S", "*.proto"):
            fs += glob.glob(os.path.join(REPO, d, pat))
    for root, _, names in os.walk(os.path.join(HERE, "shim")):
        fs += [os.path.join(root, n) for n in names]
    fs += drivers()
    fs += [os.path.abspath(__file__), os.path.join(HERE, "engine", "irx.cc")]
    return sorted(fs)


def tree_hash():
    h = hashlib.sha256()
    for f in _inputs():
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


_HASH = None


def workdir():
    global _HASH
    if _HASH is None:
        _HASH = tree_hash()
    d = os.path.join(BUILD, _HASH)
    os.makedirs(d, exist_ok=True)
    return d


def prune():
    """Keep only the newest few cached trees."""
    try:
        ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD)]
        ds = [d for d in ds if os.path.isdir(d) and len(os.path.basename(d)) == 20]
        ds.sort(key=os.path.getmtime)
        for d in ds[:-6]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, **kw)
    return p


def tool():
    src = os.path.join(HERE, "engine", "irx.cc")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "irx-" + h)
    if os.path.exists(exe):
        return exe
    cfg = shutil.which("llvm-config-18") or "/usr/lib/llvm-18/bin/llvm-config"
    cxx = subprocess.check_output([cfg, "--cxxflags"], text=True).split()
    ld = subprocess.check_output([cfg, "--ldflags", "--libs", "--link-shared"],
                                 text=True).split()
    tmp = exe + ".tmp%d" % os.getpid()
    p = run([CLANG, "-O1", "-w"] + cxx + ["-fno-exceptions", src, "-o", tmp] + ld)
    if p.returncode:
        raise BuildError("irx build failed:\n" + p.stderr[-3000:])
    os.replace(tmp, exe)
    return exe


def gen_dir():
    d = os.path.join(workdir(), "gen")
    tgt = os.path.join(d, "tcmalloc", "internal", "profile.pb.h")
    if not os.path.exists(tgt):
        t = d + ".tmp%d" % os.getpid()
        os.makedirs(t, exist_ok=True)
        p = run(["protoc", "--cpp_out=" + t, "-I", REPO,
                 os.path.join(REPO, "tcmalloc/internal/profile.proto")])
        if p.returncode:
            raise BuildError("protoc failed: " + p.stderr)
        if os.path.exists(d):
            shutil.rmtree(t, ignore_errors=True)
        else:
            os.replace(t, d)
    return d


def flags(config, extra=()):
    return BASE_FLAGS + CONFIGS[config] + ["-I" + REPO, "-I" + gen_dir()] + list(extra)


def compile_bc(src, out, config, extra=()):
    p = run([CLANG] + flags(config, extra) +
            ["-emit-llvm", "-c", src, "-o", out + ".tmp"])
    if p.returncode:
        return "%s:\n%s" % (src, p.stderr[-2500:])
    os.replace(out + ".tmp", out)
    return None


def tu_bc(rel, config="release"):
    """Bitcode of one translation unit (path relative to /repo, or a driver)."""
    src = (os.path.join(HERE, rel) if rel.startswith("drivers/") else
           rel if os.path.isabs(rel) else os.path.join(REPO, rel))
    d = os.path.join(workdir(), "tu-" + config)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, src.strip("/").replace("/", "_") + ".bc")
    if not os.path.exists(out):
        e = compile_bc(src, out, config)
        if e:
            raise BuildError("does not compile for analysis: " + e)
    return out


def link(bcs, out):
    exe = shutil.which("llvm-link-18") or "/usr/lib/llvm-18/bin/llvm-link"
    p = run([exe] + bcs + ["-o", out + ".tmp"])
    if p.returncode:
        raise BuildError("llvm-link: " + p.stderr[-2000:])
    os.replace(out + ".tmp", out)


def module(config="release"):
    """The linked whole-program module."""
    d = workdir()
    out = os.path.join(d, "all-%s.bc" % config)
    meta = out + ".json"
    if os.path.exists(out) and os.path.exists(meta):
        return out, json.load(open(meta))
    tus = [s for s in sources()
           if not any(os.path.basename(s).startswith(p) for p in SEPARATE)]
    tus += drivers()
    gen_dir()
    sub = os.path.join(d, "tu-" + config)
    os.makedirs(sub, exist_ok=True)
    outs = [os.path.join(sub, s.strip("/").replace("/", "_") + ".bc") for s in tus]
    with ThreadPoolExecutor(8) as ex:
        errs = list(ex.map(lambda so: None if os.path.exists(so[1]) else
                           compile_bc(so[0], so[1], config), zip(tus, outs)))
    errs = [e for e in errs if e]
    if errs:
        raise BuildError("does not compile for analysis:\n" + "\n".join(errs[:3]))
    link(outs, out)
    m = {"units": [os.path.relpath(t, REPO) if t.startswith(REPO) else t
                   for t in tus], "config": config}
    json.dump(m, open(meta, "w"))
    prune()
    return out, m


def extract(bc, roots, anchors, mode=(), tag=""):
    """Runs irx; returns the list of dumped functions and the header."""
    key = hashlib.sha256(json.dumps([bc, sorted(roots), sorted(anchors),
                                     list(mode),
                                     os.path.basename(tool())]).encode()).hexdigest()[:16]
    out = os.path.join(workdir(), "x-%s.json" % key)
    if not os.path.exists(out):
        t = tempfile.mkdtemp(dir=workdir())
        rf, af = os.path.join(t, "r"), os.path.join(t, "a")
        open(rf, "w").write("\n".join(roots) + "\n")
        open(af, "w").write("\n".join(anchors) + "\n")
        p = run([tool(), "--in", bc, "--roots", rf, "--anchors", af, "--out",
                 out + ".tmp%d" % os.getpid()] + list(mode))
        shutil.rmtree(t, ignore_errors=True)
        if p.returncode:
            raise BuildError("irx failed (%d): %s" % (p.returncode, p.stderr[-2000:]))
        os.replace(out + ".tmp%d" % os.getpid(), out)
    fns, header = [], None
    with open(out) as f:
        for line in f:
            d = json.loads(line)
            if d.get("kind") == "header":
                header = d
            else:
                fns.append(d)
    return fns, header


if __name__ == "__main__":
    t = time.time()
    tool()
    bc, m = module()
    print("built", bc, len(m["units"]), "units", "%.1fs" % (time.time() - t))
