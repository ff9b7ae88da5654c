"""Build machinery of the IFEM runtime-verification framework.

Compiles /repo's current sources (content hashed, never mtime based) into
instrumented objects, and links them with a harness from /verif/harness.
Objects are cached under /verif/build (git-ignored); the cache key is the
compiler command and the content of every non-system file the compiler read.
"""
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))

# Sources that need GoTools or PETSc, which are not available in this sandbox
LEFT_OUT = re.compile(
    r"^src/(ASM/(ASMmxBase|ASMstruct|ASMs1D\w*|ASMs2D(C1|IB|Lag|mx|recovery|Spec|Tri|Interpolate)?"
    r"|ASMs3D(Lag|mx|recovery|Spec|Interpolate)?|SplineField\w*|SplineFields\w*|SplineInterpolator"
    r"|SAMpatchPETSc)|Utility/SplineUtils|LinAlg/PETSc\w*)\.C$"
    r"|^Apps/Utils/(MultiPatchModelGenerator|SIMMultiPatchModelGen)\.C$"
)
CLASSES = (
    r"ASMmxBase|ASMstruct|ASMs1D(?:C1|Lag|Spec)?|ASMs2D(?:C1|IB|Lag|mx|Spec|Tri)?"
    r"|ASMs3D(?:Lag|mx|Spec)?|SplineField(?:2D|3D)?|SplineFields(?:1D|2D|2Dmx|3D|3Dmx)"
    r"|SplineInterpolator|SplineUtils|(?:Default|MultiPatch)\w*ModelGenerator\w*|SIMMultiPatchModelGen"
)
ALLOWED = re.compile(
    r"^(?:vtable for |typeinfo for |typeinfo name for |VTT for |construction vtable for "
    r"|guard variable for |(?:non-)?virtual thunk to )?(?:%s)(?:$|::)" % CLASSES
)

DEFS = (
    "-DDUNE_ISTL_VERSION_MAJOR=2 -DDUNE_ISTL_VERSION_MINOR=9 -DDUNE_ISTL_VERSION_REVISION=0 "
    "-DHAS_CEREAL=1 -DHAS_HDF5=1 -DHAS_ISTL=1 -DHAS_SUPERLU=1 -DHAS_UMFPACK=1 -DHAVE_NULLPTR=1 "
    "-DHAVE_SUITESPARSE_UMFPACK=1 -DHAVE_SUPERLU=1 -DHAVE_UMFPACK=1 -DISTL_VERSION=\"2.9.0\" "
    "-DPROFILE_LEVEL=3 -DReal=double -DSUPERLU_INT_TYPE=int -DSUPERLU_MIN_VERSION_4_3=1 "
    "-DSUPERLU_MIN_VERSION_5=1 -DSUPERLU_NTYPE=1 -DSUPERLU_POST_2005_VERSION=1 -DUSE_CBLAS=1 "
    "-DUSE_OPENMP=1 -DepsZ=1.0e-12"
).split()
INCS = (
    "-IApps/Utils -I@B/gen -I3rdparty -Isrc/ASM -Isrc/LinAlg -Isrc/SIM -Isrc/Utility -Isrc/Eig "
    "-I3rdparty/autodiff -I3rdparty/expreval -isystem /usr/include/superlu "
    "-isystem /usr/include/hdf5/serial -isystem /usr/include/suitesparse"
).split()
LIBS = (
    "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial /usr/lib/x86_64-linux-gnu/libopenblas.so "
    "/usr/lib/x86_64-linux-gnu/libarpack.so /usr/lib/x86_64-linux-gnu/libtinyxml2.so "
    "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so /usr/lib/x86_64-linux-gnu/libsuperlu.so "
    "/usr/lib/x86_64-linux-gnu/libumfpack.so /usr/lib/x86_64-linux-gnu/libsuitesparseconfig.so "
    "-ldunecommon -lgfortran -lquadmath -lm -ldl -lpthread"
).split()

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
# variables without a value get a recognisable one, so that reading them shows (ASAN does so on the heap)
PATTERN = ["-ftrivial-auto-var-init=pattern"]
COMMON = ["-std=gnu++20", "-O1", "-g1", "-w", "-fno-omit-frame-pointer"] + PATTERN
MEM = [f for f in COMMON if f not in PATTERN] + ["-DNDEBUG", "-fopenmp", "-DVF_MEMCHECK"]
NOISTL = {"-DHAS_ISTL=1"}
NOBLAS = {"-DUSE_CBLAS=1"}
VARIANTS = {
    # the whole library, with every back end of the shipped configuration
    "asan": dict(flags=COMMON + SAN + ["-DNDEBUG", "-fopenmp"], drop=set(), link=SAN + ["-fopenmp"]),
    # as asan, but without the ISTL back end (much faster to build)
    "lite": dict(flags=COMMON + SAN + ["-DNDEBUG", "-fopenmp"], drop=NOISTL, link=SAN + ["-fopenmp"]),
    # the hand-written fallback of the dense algebra, as a build without BLAS has it
    "noblas": dict(flags=COMMON + SAN + ["-DNDEBUG", "-fopenmp"], drop=NOISTL | NOBLAS,
                   link=SAN + ["-fopenmp"]),
    # without sanitizers, for Memcheck, which follows values that were never set (thorough tier)
    "mem.asan": dict(flags=MEM, drop=set(), link=["-fopenmp"]),
    "mem.lite": dict(flags=MEM, drop=NOISTL, link=["-fopenmp"]),
    "mem.noblas": dict(flags=MEM, drop=NOISTL | NOBLAS, link=["-fopenmp"]),
    # data-race detection; OpenMP constructs run on /verif/harness/gomp_shim.C
    "tsan": dict(flags=COMMON + ["-fsanitize=thread", "-DNDEBUG", "-fopenmp"], drop=NOISTL,
                 link=["-fsanitize=thread"]),
}

if os.environ.get("VF_COV"):  # used by tools/cover.py only: line coverage instead of sanitizers
    for _v in VARIANTS.values():
        _v["flags"] = COMMON + ["--coverage", "-fprofile-update=atomic", "-DNDEBUG", "-fopenmp"]
        _v["link"] = ["--coverage", "-Wl,-u,__gcov_dump"] + [f for f in _v["link"] if f == "-fopenmp"]


class BuildError(Exception):
    pass


_hash = {}
_hlock = threading.Lock()


def fhash(path):
    with _hlock:
        if path in _hash:
            return _hash[path]
    try:
        with open(path, "rb") as f:
            h = hashlib.sha1(f.read()).hexdigest()
    except OSError:
        h = None
    with _hlock:
        _hash[path] = h
    return h


_ver = {}


def version(cc):
    if cc not in _ver:
        _ver[cc] = subprocess.run([cc, "--version"], capture_output=True, text=True).stdout.splitlines()[0]
    return _ver[cc]


def tok(path):
    path = os.path.normpath(path)
    for root, t in ((BUILD, "@B"), (VERIF, "@V"), (REPO, "@R")):
        if path.startswith(root + "/"):
            return t + path[len(root):]
    return path


def untok(path):
    return path.replace("@B", BUILD).replace("@V", VERIF).replace("@R", REPO)


def sources():
    """All library sources of the supported configuration, relative to /repo."""
    out = []
    for d in ("src/ASM", "src/Eig", "src/LinAlg", "src/SIM", "src/Utility", "Apps/Utils"):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            p = d + "/" + f
            if f.endswith((".C", ".f")) and not LEFT_OUT.match(p):
                out.append(p)
    out.append("src/IFEM.C")
    d = "3rdparty/expreval"
    out += [d + "/" + f for f in sorted(os.listdir(os.path.join(REPO, d))) if f.endswith(".cpp")]
    return out


def generate():
    """The one generated header of the project's build."""
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    with open(os.path.join(REPO, "src/IFEM.h.in")) as f:
        txt = f.read()
    with open(os.path.join(REPO, "CMakeLists.txt")) as f:
        cm = f.read()
    major = (re.search(r"IFEM_VERSION_MAJOR (\d+)", cm) or [0, "0"])[1]
    minor = (re.search(r"IFEM_VERSION_MINOR (\d+)", cm) or [0, "0"])[1]
    for k, v in (("MAJOR", major), ("MINOR", minor), ("PATCH", "0"), ("STRING", major + "." + minor)):
        txt = txt.replace("@IFEM_VERSION_%s@" % k, v)
    txt = re.sub(r"@\w+@", "0", txt)
    dst = os.path.join(gen, "IFEM.h")
    try:
        with open(dst) as f:
            if f.read() == txt:
                return
    except OSError:
        pass
    fd, tmp = tempfile.mkstemp(dir=gen)
    with os.fdopen(fd, "w") as f:
        f.write(txt)
    os.rename(tmp, dst)


def compile_one(src, variant, extra=()):
    """Returns the path of the object of one source (relative to REPO, or absolute)."""
    v = VARIANTS[variant]
    if src.endswith(".f"):
        cmd = ["gfortran", "-O1", "-g1"]
    else:
        defs = [d for d in DEFS if d not in v["drop"]]
        incs = INCS + (["-I@V/harness"] if os.path.isabs(src) else [])
        flags = v["flags"]
        if src.startswith("3rdparty/"):
            flags = [f.replace("address,undefined", "address") for f in flags]
        if os.path.isabs(src):  # a harness: build speed matters more than its own speed
            flags = ["-O0" if f == "-O1" else f for f in flags]
        if os.path.basename(src).lower().startswith("istl"):  # assigning to an empty Dune::BCRSMatrix forms the pointer r-1 of a null r
            flags = flags + ["-fno-sanitize=pointer-overflow"]
        cmd = ["g++"] + defs + incs + flags + list(extra)
    key = hashlib.sha1(json.dumps([version(cmd[0]), cmd, tok(os.path.join(REPO, src))]).encode()).hexdigest()
    d = os.path.join(BUILD, "obj", key[:2], key[2:18])
    man = os.path.join(d, "manifest.json")
    entries = []
    try:
        with open(man) as f:
            entries = json.load(f)
        for e in entries:
            if all(fhash(untok(p)) == h for p, h in e["deps"].items()):
                o = os.path.join(d, e["obj"])
                if os.path.exists(o):
                    return o, None
    except (OSError, ValueError):
        entries = []
    os.makedirs(d, exist_ok=True)
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=d)
    os.close(fd)
    dep = tmp + ".d"
    full = [untok(c) for c in cmd]
    if not src.endswith(".f"):
        full += ["-MD", "-MF", dep]
    full += ["-c", src, "-o", tmp]
    r = subprocess.run(full, cwd=REPO, capture_output=True, text=True)
    if r.returncode:
        for p in (tmp, dep):
            if os.path.exists(p):
                os.unlink(p)
        return None, "cannot compile %s\n%s" % (src, r.stderr[-4000:])
    deps = {}
    if src.endswith(".f"):
        p = os.path.join(REPO, src)
        deps[tok(p)] = fhash(p)
    else:
        with open(dep) as f:
            words = f.read().replace("\\\n", " ").split()
        os.unlink(dep)
        for w in words[1:]:
            p = w if os.path.isabs(w) else os.path.join(REPO, w)
            p = os.path.normpath(p)
            if not p.startswith("/usr/"):
                deps[tok(p)] = fhash(p)
    h = hashlib.sha1(json.dumps(sorted(deps.items())).encode()).hexdigest()[:16] + ".o"
    os.rename(tmp, os.path.join(d, h))
    entries = [e for e in entries if e["obj"] != h][-5:] + [dict(deps=deps, obj=h)]
    fd, tmp = tempfile.mkstemp(dir=d)
    with os.fdopen(fd, "w") as f:
        json.dump(entries, f)
    os.rename(tmp, man)
    for f in os.listdir(d):
        if f.endswith(".o") and f not in [e["obj"] for e in entries] and not f.startswith("tmp"):
            os.unlink(os.path.join(d, f))
    return os.path.join(d, h), None


# big translation units first, so that the pool stays busy
HEAVY = ["ISTLSolParams", "SIMbase", "SIMoutput", "func.cpp", "SIMinput", "ASMbase", "ExprFunctions",
         "ISTLMatrix", "DomainDecomposition", "SIM3D", "SIM2D", "GlbL2", "Functions.C", "Tensor.C"]


def weight(s):
    if os.path.isabs(s):
        return -1
    for i, h in enumerate(HEAVY):
        if h in s:
            return i
    return 100


def compile_all(srcs, variant, extra=None):
    extra = extra or {}
    order = sorted(srcs, key=weight)
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda s: compile_one(s, variant, extra.get(s, ())), order))
    err = [e for o, e in res if e]
    if err:
        raise BuildError("\n".join(err[:3]))
    return dict(zip(order, [o for o, e in res]))


def stubs(syms, d):
    """Placeholders for what is left out: functions that abort, unreadable data, empty type_info."""
    names = subprocess.run(["c++filt"], input="\n".join(syms) + "\n", capture_output=True,
                           text=True).stdout.splitlines()
    text, data, info = [], [], []
    for s, n in zip(syms, names):
        if s.startswith("_ZTI"):
            info.append(
                ".globl %s\n.balign 8\n%s:\n.quad _ZTVN10__cxxabiv117__class_type_infoE+16\n"
                ".quad 1f\n.section .rodata\n1: .asciz \"%s\"\n.section .data.rel.leftout,\"aw\"\n" % (s, s, s[4:]))
        elif "(" in n:
            text.append(".globl %s\n.type %s,@function\n.set %s, ifem_left_out\n" % (s, s, s))
        else:
            data.append(".globl %s\n.balign 16\n%s: .zero 4096\n" % (s, s))
    p = os.path.join(d, "leftout.s")
    with open(p, "w") as f:
        f.write(".text\n.globl ifem_left_out\n.type ifem_left_out,@function\nifem_left_out:\n"
                "subq $8,%rsp\ncall ifem_left_out_called\n" + "".join(text))
        f.write(".section .data.rel.leftout,\"aw\"\n" + "".join(info))
        f.write(".section .leftout,\"aw\"\n.balign 4096\n" + "".join(data))
        f.write(".section .note.GNU-stack,\"\",@progbits\n")
    return p


def link(objs, variant, exe, libobjs, trace=False):
    """Links objs with the archive members they need; returns the undefined symbols, if any."""
    v = VARIANTS[variant]
    d = tempfile.mkdtemp(prefix="lnk", dir=os.path.join(BUILD, "bin"))
    try:
        # archive members are named after their source, so that the linker's trace can name them
        links = []
        for s, o in libobjs.items():
            n = os.path.join(d, s.replace("/", "+") + ".o")
            os.symlink(o, n)
            links.append(n)
        ar = os.path.join(d, "libIFEM.a")
        if links:
            subprocess.run(["ar", "qcsT", ar] + links, check=True, cwd=d)
        tmp = os.path.join(d, "exe")
        base = ["g++"] + v["link"] + objs + ([ar] if links else []) + LIBS + ["-o", tmp]
        if trace:
            base.append("-Wl,-t")
        env = dict(os.environ, LC_ALL="C")
        r = subprocess.run(base + ["-Wl,--no-demangle"], capture_output=True, text=True, env=env)
        if r.returncode:
            syms = sorted(set(re.findall(r"undefined reference to `([^']+)'", r.stderr)))
            names = subprocess.run(["c++filt"], input="\n".join(syms) + "\n", capture_output=True,
                                   text=True).stdout.splitlines() if syms else []
            bad = [n for n in names if not ALLOWED.match(n)]
            if not syms or bad:
                return None, bad, r.stderr[-3000:]
            st = stubs(syms, d)
            r = subprocess.run(base + [st, os.path.join(VERIF, "harness", "leftout.c")],
                               capture_output=True, text=True, env=env)
            if r.returncode:
                return None, ["?"], r.stderr[-3000:]
        used = None
        if trace:
            used = sorted(set(m.replace("+", "/") for m in
                              re.findall(r"(?:^|[(/])([\w+.-]+\.(?:C|f|cpp))\.o\b", r.stdout + r.stderr, re.M)
                              if "+" in m))
        os.rename(tmp, exe)
        return used or [], [], ""
    finally:
        subprocess.run(["/bin/rm", "-rf", d])


CLOSURES = os.path.join(VERIF, "tools", "closures.json")


def closures():
    try:
        with open(CLOSURES) as f:
            return json.load(f)
    except (OSError, ValueError):
        return {}


def build(name, harness, variant, record=False, extra_src=(), only=None):
    """Builds one harness against /repo's current tree; returns the executable."""
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    generate()
    hs = [os.path.join(VERIF, "harness", h) for h in (harness,) + tuple(extra_src)]
    every = [x for x in sources() if "-DHAS_ISTL=1" not in VARIANTS[variant]["drop"] or "/ISTL" not in x]
    key = name + "." + variant.replace("mem.", "")
    closure = [s for s in closures().get(key, []) if s in every]
    if only:
        closure = every = only
    exe_dir = os.path.join(BUILD, "bin")
    for srcs in ([closure] if closure and not record else []) + [every]:
        objs = compile_all(hs + srcs, variant)
        sig = hashlib.sha1("\n".join(sorted(os.path.basename(os.path.dirname(o)) + os.path.basename(o)
                                            for o in objs.values())).encode())
        for f in (os.path.join(VERIF, "harness", "leftout.c"), os.path.abspath(__file__)):
            sig.update((fhash(f) or "").encode())
        exe = os.path.join(exe_dir, "%s.%s.%s" % (name, variant, sig.hexdigest()[:12]))
        if os.path.exists(exe) and not record:
            return exe
        for f in os.listdir(exe_dir):
            if f.startswith("%s.%s." % (name, variant)):
                try:
                    os.unlink(os.path.join(exe_dir, f))
                except OSError:
                    pass
        used, bad, msg = link([objs[h] for h in hs], variant, exe,
                              {s: objs[s] for s in srcs}, trace=record)
        if used is not None:
            if record:
                c = closures()
                c[key] = used
                with open(CLOSURES, "w") as f:
                    json.dump(c, f, indent=1, sort_keys=True)
                    f.write("\n")
            return exe
    raise BuildError("cannot link %s: %s\n%s" % (name, bad[:10], msg))


if __name__ == "__main__":
    print("\n".join(sources()))
