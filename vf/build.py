"""Builds instrumented variants of SplinterDB from /repo's working tree.

Nothing is written to /repo.  Output goes to /verif/build/<variant>-<hash>,
where the hash covers every source byte, the runtime, the harness and flags,
so a cached build is used only when it is the build of exactly this tree.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
WRAPS = ["pwrite", "pwrite64", "pread", "pread64", "io_submit", "io_setup",
         "io_destroy", "io_getevents"]

BASE = ["-D_GNU_SOURCE", "-pthread", "-DXXH_STATIC_LINKING_ONLY", "-fPIC",
        "-DSPLINTERDB_PLATFORM_DIR=platform_linux", '-DGIT_VERSION="verif"',
        "-g", "-w", "-fno-omit-frame-pointer"]
PERTURB = ["-include", os.path.join(VERIF, "rt/perturb.h"),
           "-finstrument-functions"]
# name -> (compiler, lib cflags, common cflags, ldflags)
VARIANTS = {
    # optimised code, schedule points at atomics and function entries
    "rel": ("gcc", PERTURB, ["-O2"], []),
    # the library's own internal assertions are additional monitors
    "dbg": ("gcc", PERTURB + ["-DSPLINTER_DEBUG"], ["-O1"], []),
    "asan": ("clang", ["-include", os.path.join(VERIF, "rt/perturb.h")],
             ["-O1", "-fsanitize=address,undefined",
              "-fno-sanitize-recover=all",
              # not defects here: memcpy(NULL, x, 0); key[-1+1] address
              # arithmetic; flexible trailing arrays
              "-fno-sanitize=alignment,nonnull-attribute,bounds,pointer-overflow",
              "-fno-common"],
             ["-fsanitize=address,undefined"]),
    "plain": ("gcc", [], ["-O2"], []),
}


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def _sources():
    pats = ["src/*.c", "src/*/*.c"]
    out = []
    for p in pats:
        out += glob.glob(os.path.join(REPO, p))
    return sorted(out)


def _headers():
    out = []
    for root in ("src", "include"):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            for f in fs:
                if f.endswith((".h", ".c", ".inc")):
                    out.append(os.path.join(d, f))
    return sorted(out)


def _hash(files, extra):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def incs():
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
            "-I" + os.path.join(REPO, "src/platform_linux"),
            "-I" + os.path.join(VERIF, "rt"), "-I" + os.path.join(VERIF, "harness")]


def _prune(keep):
    """Bound the disk used by old builds."""
    ds = [d for d in glob.glob(os.path.join(BUILD, "*-*")) if os.path.isdir(d)
          and d not in keep]
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[24:]:
        shutil.rmtree(d, ignore_errors=True)


def build_lib(variant, extra_cflags=()):
    cc, libfl, common, _ = VARIANTS[variant]
    flags = BASE + common + libfl + list(extra_cflags)
    rtfiles = [os.path.join(VERIF, "rt/perturb.h"), os.path.join(VERIF, "rt/rt.c"),
               os.path.join(VERIF, "rt/rt.h")]
    hsh = _hash(_headers() + rtfiles, (cc, flags))
    out = os.path.join(BUILD, "lib-%s-%s" % (variant, hsh))
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, ".done")):
            os.utime(out)
            return out
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        jobs = []
        for s in _sources():
            o = os.path.join(out, os.path.relpath(s, REPO).replace("/", "_")[:-2] + ".o")
            jobs.append([cc] + flags + incs() + ["-c", s, "-o", o])
        # biggest first
        jobs.sort(key=lambda j: -os.path.getsize(j[-3]))
        jobs.append([cc] + BASE + common + incs() +
                    ["-c", os.path.join(VERIF, "rt/rt.c"), "-o", os.path.join(out, "rt.o")])
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(_run, jobs))
        open(os.path.join(out, ".done"), "w").close()
        _prune({out})
    return out


def build(variant, harness, extra_cflags=(), inst_harness=False):
    """Returns the path of the harness executable for this variant."""
    cc, libfl, common, ld = VARIANTS[variant]
    lib = build_lib(variant, extra_cflags)
    hs = sorted(glob.glob(os.path.join(VERIF, "harness/*.h")))
    src = os.path.join(VERIF, "harness", harness + ".c")
    dbg = [f for f in list(libfl) + list(extra_cflags) if f.startswith("-D")]
    flags = BASE + common + dbg
    tag = _hash([src] + hs, (cc, flags, lib))
    exe = os.path.join(lib, harness + "-" + tag)
    with open(os.path.join(BUILD, ".lock-h-" + variant + harness), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        objs = sorted(glob.glob(os.path.join(lib, "*.o")))
        _run([cc] + flags + incs() + [src] + objs + ld +
             ["-Wl,--wrap=" + w for w in WRAPS] +
             ["-pthread", "-o", exe + ".tmp", "-lm", "-lpthread", "-laio", "-lxxhash"])
        os.rename(exe + ".tmp", exe)
    return exe


if __name__ == "__main__":
    t = time.time()
    print(build(sys.argv[1], sys.argv[2]), "%.1fs" % (time.time() - t))
