"""Builds picotm from /repo's working tree, in instrumented variants, plus the
harness programs of /verif/harness.  Objects live in /verif/build/<variant>-<hash>,
where the hash covers every source byte and flag, so a changed tree is always
rebuilt and an unchanged one never is."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
MODULES = ["arithmetic", "cast", "libc", "libm", "libpthread", "ptrdata", "tm", "txlib"]

# UBSan groups that are defects in C17; not: unsigned wrap.
UB = ("-fsanitize=undefined -fno-sanitize=function,vptr,pointer-overflow "
      "-fno-sanitize-recover=null,return,vla-bound,unreachable")
VARIANTS = {
    # asserts stay on everywhere
    "asan": dict(cc="clang", flags="-O1 -g -fno-omit-frame-pointer -fno-optimize-sibling-calls "
                 "-fsanitize=address " + UB),
    "tsan": dict(cc="clang", flags="-O1 -g -fno-omit-frame-pointer -fsanitize=thread"),
    "plain": dict(cc="gcc", flags="-O2 -g"),
    # as the shared libraries are built; linked whole, so that exports show in the program's dynamic symbol table
    "hidden": dict(cc="gcc", flags="-O1 -g -fPIC -fvisibility=hidden"),
    "msan": dict(cc="clang", flags="-O1 -g -fno-omit-frame-pointer -fsanitize=memory -fsanitize-memory-track-origins"),
}
COMMON = "-pthread -std=c17 -w"

def lib_sources():
    srcs = sorted(glob.glob(REPO + "/src/*.c"))
    for m in MODULES:
        srcs += sorted(glob.glob(f"{REPO}/modules/{m}/src/**/*.c", recursive=True))
    return srcs

def all_inputs():
    fs = []
    for d in ["src", "include"] + [f"modules/{m}/{x}" for m in MODULES for x in ("src", "include")]:
        for ext in ("*.c", "*.h"):
            fs += glob.glob(f"{REPO}/{d}/**/{ext}", recursive=True)
    fs += glob.glob(VERIF + "/config/**/*.h", recursive=True)
    return sorted(set(fs))

def includes(internal=True):
    inc = [f"-I{VERIF}/config", f"-I{VERIF}/config/picotm/config", f"-I{REPO}/include"]
    for m in MODULES:
        inc.append(f"-I{REPO}/modules/{m}/include")
    if internal:
        inc.append(f"-iquote{REPO}/src")
    return inc

def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:16]

_src_hash = None
def src_hash():
    global _src_hash
    if _src_hash is None:
        parts = []
        for f in all_inputs():
            parts.append(f)
            with open(f, "rb") as fh:
                parts.append(fh.read())
        _src_hash = _h(*parts)
    return _src_hash

class BuildError(Exception):
    pass

def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout)

def build_lib(variant):
    v = VARIANTS[variant]
    d = os.path.join(BUILD, f"{variant}-{_h(src_hash(), v['cc'], v['flags'], COMMON)}")
    lib = os.path.join(d, "libpicotm-all.a")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(lib):
            os.utime(d)
            return d, lib
        # prune older trees of this variant
        old = sorted((x for x in glob.glob(os.path.join(BUILD, variant + "-*")) if os.path.isdir(x)),
                     key=os.path.getmtime)
        for x in old[:-1]:
            shutil.rmtree(x, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        jobs = []
        objs = []
        for s in lib_sources():
            o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "__")[:-2] + ".o")
            objs.append(o)
            mod_inc = []
            rel = os.path.relpath(s, REPO)
            if rel.startswith("modules/"):
                m = rel.split("/")[1]
                base = f"{REPO}/modules/{m}/src"
                mod_inc = [f"-iquote{base}"]
            jobs.append([v["cc"], "-DHAVE_CONFIG_H", "-include", "config.h", *mod_inc, *includes(),
                         *v["flags"].split(), *COMMON.split(), "-c", s, "-o", o])
        with ThreadPoolExecutor(os.cpu_count()) as ex:
            list(ex.map(_run, jobs))
        tmp = lib + ".tmp"
        if os.path.exists(tmp):
            os.unlink(tmp)
        _run(["ar", "rcs", tmp, *objs])
        os.rename(tmp, lib)
    return d, lib

def build_harness(name, variant, extra=()):
    """name: file in /verif/harness without .c; returns path of the binary"""
    d, lib = build_lib(variant)
    v = VARIANTS[variant]
    src = os.path.join(VERIF, "harness", name + ".c")
    parts = [name, variant, *extra, v["flags"]]
    for f in [src] + sorted(glob.glob(VERIF + "/harness/*.h")):
        with open(f, "rb") as fh:
            parts.append(fh.read())
    key = _h(*parts)
    out = os.path.join(d, f"{name}-{key}")
    with open(os.path.join(BUILD, f"h-{name}-{variant}.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            for x in glob.glob(os.path.join(d, name + "-????????????????")):
                os.unlink(x)
            _run([v["cc"], "-include", "config.h", f"-I{VERIF}/harness", *includes(),
                  *v["flags"].split(), "-pthread", "-std=gnu17", "-Wall", "-Wno-unused", "-Wno-unknown-warning-option",
                  "-Wno-clobbered", *extra, src, *(["-rdynamic", "-Wl,--whole-archive", lib, "-Wl,--no-whole-archive"] if variant == "hidden" else [lib]), "-lm", "-ldl", "-o", out + ".tmp"])
            os.rename(out + ".tmp", out)
    return out

if __name__ == "__main__":
    t = time.time()
    for v in sys.argv[1:] or ["asan", "tsan"]:
        print(build_lib(v)[0], round(time.time() - t, 1))
