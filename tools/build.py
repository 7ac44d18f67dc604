#!/usr/bin/env python3
"""Incremental, content-addressed build of /repo (sanitized) + the monitors.

Every object is keyed by sha256(flags, source text, text of every file it
includes), so a change anywhere in /repo recompiles exactly what it affects and
an unchanged tree costs only the hashing.  Nothing is written in /repo.
"""
import concurrent.futures as cf, glob, hashlib, json, os, subprocess, sys, fcntl
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VREPO", "/repo")
B = os.path.join(V, "build")
SAN = ("-fsanitize=address,shift,integer-divide-by-zero,signed-integer-overflow,"
       "bounds,float-cast-overflow,bool,enum,return,unreachable,vla-bound,vptr,"
       "object-size -fno-sanitize-recover=all")
BASE = ("-DNDEBUG -DEXSEISDAT_MONITOR -DEXSEISDAT_MPIIO_COLLECTIVES -fno-omit-frame-pointer "
        "-pthread -w")
CXX = "-std=c++14 -include cassert -include cmath -include cstddef -include cstring -include limits"
VARIANTS = {
    # product semantics (NDEBUG), sanitized; uninitialised locals get a pattern
    "san": f"-O1 -g1 {SAN} -D_GLIBCXX_SANITIZE_VECTOR=1 -ftrivial-auto-var-init=pattern {BASE}",
    # plain build, for valgrind memcheck (definedness)
    "plain": f"-O1 -g1 {BASE}",
}
LINK = {"san": SAN, "plain": ""}
MPI_INC = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
try:
    MPI_INC = subprocess.run(["mpicxx", "--showme:compile"], capture_output=True, text=True).stdout.split() or MPI_INC
except OSError:
    pass
UTILS = {
    "radon": ["radon.cc", "sglobal.cc"], "assess": ["assess.cc", "sglobal.cc"],
    "versort": ["verifysort.cc", "sglobal.cc"],
    "concatenate": ["concatenate.cc", "sglobal.cc"], "segsort": ["sort.cc"],
    "fourdbin": ["fourdbin.cc", "4dio.cc", "4dcore.cc", "sglobal.cc"],
    "filemake": ["filemake.cc", "sglobal.cc"], "makerep": ["makerep.cc", "sglobal.cc"],
    "minmax": ["minmax.cc", "sglobal.cc"], "segy2kml": ["segy2kml.cc", "sglobal.cc"], "traceanalysis": ["traceanalysis.cc"],
}
# whole programs that use the C interface (and one pair with C++)
EXAMPLES = {"creadwrite": "creadwrite.c", "example2": "example2.c", "modprm": "modprm.c", "cminmax": "minmax.c", "ccminmax": "minmax.cc", "ccmake": "exampleCreateFile.cc"}


def sha(b):
    return hashlib.sha256(b).hexdigest()


_fh = {}


def fhash(p):
    if p not in _fh:
        try:
            with open(p, "rb") as f:
                _fh[p] = sha(f.read())
        except OSError:
            _fh[p] = "-"
    return _fh[p]


def headerset():
    r = []
    for d in ("include", "src", "util"):
        for root, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            r += [os.path.join(root, f) for f in sorted(fs) if f.endswith((".h", ".hh", ".hpp"))]
    return sha("\n".join(r).encode())


class BuildError(Exception):
    pass


def compile_one(src, variant, hs):
    iscc = not src.endswith(".c")
    flags = VARIANTS[variant] + (" " + CXX if iscc else " -std=gnu99")
    inc = [f"-I{REPO}/include", f"-I{REPO}/src", f"-I{V}/mon"] + MPI_INC
    if src.startswith(V) or "/util/" in src:
        inc.append(f"-I{REPO}/util")
    base = sha((flags + "|" + " ".join(inc) + "|" + src + "|" + hs).encode() + fhash(src).encode())[:24]
    depf = os.path.join(B, "dep", base + ".json")

    def key(deps):
        return sha((base + "|" + "|".join(d + ":" + fhash(d) for d in deps)).encode())[:32]

    variants_deps = []
    if os.path.exists(depf):
        try:
            variants_deps = json.load(open(depf))
        except ValueError:
            variants_deps = []
        for deps in variants_deps:
            o = os.path.join(B, "obj", key(deps) + ".o")
            if os.path.exists(o):
                return o, False
    tmp = os.path.join(B, "obj", f"tmp.{os.getpid()}.{base}.{variant}")
    cmd = (["g++"] if iscc else ["gcc"]) + flags.split() + inc + ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(f"compile {src} failed:\n" + r.stderr[-4000:])
    txt = open(tmp + ".d").read().replace("\\\n", " ")
    deps = sorted(set(d for d in txt.split(":", 1)[1].split() if d.startswith((REPO, V))) - {src})
    o = os.path.join(B, "obj", key(deps) + ".o")
    os.replace(tmp + ".o", o)
    os.unlink(tmp + ".d")
    if deps not in variants_deps:
        variants_deps.append(deps)
        with open(depf + f".{os.getpid()}", "w") as f:
            json.dump(variants_deps, f)
        os.replace(depf + f".{os.getpid()}", depf)
    return o, True


def link(name, objs, variant, extra=()):
    k = sha(("|".join(objs) + LINK[variant] + " ".join(extra)).encode())[:32]
    out = os.path.join(B, "bin", f"{name}-{variant}-{k}")
    if not os.path.exists(out):
        tmp = out + f".tmp{os.getpid()}"
        r = subprocess.run(["mpicxx", "-g1", "-pthread"] + LINK[variant].split() + list(objs) + list(extra) + ["-lfftw3f", "-lm", "-o", tmp],
                           capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f"link {name} failed:\n" + r.stderr[-4000:])
        os.replace(tmp, out)
    return out


def build(variant="san", utils=True, quiet=True):
    """returns {name: path} of the executables"""
    for d in ("obj", "dep", "bin"):
        os.makedirs(os.path.join(B, d), exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(variant, utils, quiet)


def _build(variant, utils, quiet):
    hs = headerset()
    lib = sorted(glob.glob(f"{REPO}/src/**/*.cc", recursive=True)) + sorted(glob.glob(f"{REPO}/src/**/*.c", recursive=True))
    mon = sorted(glob.glob(f"{V}/mon/*.cc"))
    life = sorted(glob.glob(f"{V}/mon/life/*.c*"))
    usrc = sorted({f"{REPO}/util/{s}" for l in UTILS.values() for s in l}) if utils else []
    exs = {k: f"{REPO}/examples/{s}" for k, s in EXAMPLES.items()} if utils else {}
    allsrc = lib + mon + life + usrc + sorted(exs.values())
    res, n = {}, 0
    # biggest first
    order = sorted(allsrc, key=lambda s: -os.path.getsize(s))
    with cf.ThreadPoolExecutor(8) as ex:
        for s, (o, c) in zip(order, ex.map(lambda s: compile_one(s, variant, hs), order)):
            res[s] = o
            n += c
    out = {}
    libo = [res[s] for s in lib]
    pm = res[f"{V}/mon/pmpi.cc"]
    jobs = {"mon": [res[s] for s in mon] + libo}
    for s in life:
        jobs["life_" + os.path.basename(s).rsplit(".", 1)[0]] = [res[s], pm] + libo
    if utils:
        for u, ss in UTILS.items():
            jobs["u_" + u] = [res[f"{REPO}/util/{s}"] for s in ss] + [pm] + libo
    for k, s in exs.items():
        jobs["u_ex_" + k] = [res[s], pm] + libo
    with cf.ThreadPoolExecutor(8) as ex:
        for k, p in zip(jobs, ex.map(lambda k: link(k, jobs[k], variant), jobs)):
            out[k] = p
    if not quiet:
        print(f"build[{variant}]: {n} compiled of {len(allsrc)}", file=sys.stderr)
    prune()
    return out


def prune(limit=6 << 30):
    fs = []
    for d in ("obj", "bin"):
        for f in os.scandir(os.path.join(B, d)):
            st = f.stat()
            fs.append((st.st_mtime, st.st_size, f.path))
    tot = sum(x[1] for x in fs)
    for _, sz, p in sorted(fs):
        if tot <= limit:
            break
        os.unlink(p)
        tot -= sz


if __name__ == "__main__":
    try:
        for v in sys.argv[1:] or ["san"]:
            for k, p in build(v, quiet=False).items():
                print(k, p)
    except BuildError as e:
        print(e)
        sys.exit(3)
