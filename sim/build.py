"""Builds the simulated programs from /repo's current working tree.

Objects are cached by the hash of their source text, all headers and the
command line, so a stale object can never be used.
"""
import concurrent.futures as cf, fcntl, glob, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MMC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
GUARD = "MINIMC_SIM"

LIBDIR = "/usr/lib/x86_64-linux-gnu"
LIBS = [f"{LIBDIR}/libxerces-c.so", f"{LIBDIR}/libpugixml.so", f"{LIBDIR}/hdf5/serial/libhdf5_cpp.so",
        f"{LIBDIR}/hdf5/serial/libhdf5.so", "-ldl", "-lpthread"]
CODE = ["g++", "-std=c++17", "-g1", "-O1", "-fno-pie", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=1", "-w",
        f"-D{GUARD}", "-isystem", "/usr/include/hdf5/serial", f"-I{REPO}/src"]
RT = ["g++", "-std=c++20", "-g1", "-O2", "-fno-pie", "-fno-builtin", "-fno-tree-loop-distribute-patterns", "-w"]
# the same program with automatic variables that are not initialised set to a pattern, or to zero
AUTO = {"mmcpat": ["-ftrivial-auto-var-init=pattern"], "mmczero": ["-ftrivial-auto-var-init=zero"]}
LINK = ["g++", "-no-pie", "-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"]


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-4000:])


def _compile(job):
    src, flags, key = job
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = f"{obj}.{os.getpid()}.{os.path.basename(src)}.tmp.o"
        _run(flags + ["-c", src, "-o", tmp])
        os.rename(tmp, obj)
    return obj


def build(want=("mmc",)):
    """returns {name: path}; raises BuildError"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        srcs = sorted(glob.glob(f"{REPO}/src/**/*.cpp", recursive=True))
        hdrs = sorted(glob.glob(f"{REPO}/src/**/*.h*", recursive=True))
        if not srcs:
            raise BuildError("no sources in " + REPO)
        hh = _h(*[x for p in hdrs for x in (os.path.relpath(p, REPO), _read(p))])
        sim = os.path.join(VERIF, "sim")
        rth = _read(f"{sim}/rt.h")
        jobs, names = [], []

        def add(name, src, flags, *extra):
            jobs.append((src, flags, _h(" ".join(flags), os.path.relpath(src, "/"), _read(src), *extra)))
            names.append(name)

        for s in srcs:
            main = os.path.basename(s) == "minimc.cpp"
            add("main" if main else "code", s, CODE + (["-Dmain=minimc_main"] if main else []), hh)
            for w in AUTO:
                if w in want:
                    add(w, s, CODE + AUTO[w] + (["-Dmain=minimc_main"] if main else []), hh)
        add("rt", f"{sim}/rt.cpp", RT, rth)
        add("rt", f"{sim}/alloc.cpp", RT, rth)
        if set(want) & {"mmc", *AUTO}:
            add("server", f"{sim}/server.cpp", RT, rth)
        if "mmcapi" in want:
            add("apiserver", f"{sim}/server.cpp", RT + ["-DSIM_API"], rth)
            add("api", f"{sim}/api.cpp", CODE, hh)
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(_compile, jobs))
        by = {}
        for n, o in zip(names, objs):
            by.setdefault(n, []).append(o)
        out = {}
        for w in want:
            parts = {"mmc": ["code", "main", "rt", "server"], "mmcapi": ["code", "rt", "apiserver", "api"], **{a: [a, "rt", "server"] for a in AUTO}}.get(w)
            if w == "h5gen":
                src = f"{sim}/h5gen.cpp"
                exe = os.path.join(BUILD, "h5gen-" + _h(_read(src)))
                if not os.path.exists(exe):
                    _run(["g++", "-std=c++17", "-O1", "-isystem", "/usr/include/hdf5/serial", src, "-o", exe + ".tmp",
                          f"{LIBDIR}/hdf5/serial/libhdf5.so"])
                    os.rename(exe + ".tmp", exe)
                out[w] = exe
                continue
            o = [x for p in parts for x in by.get(p, [])]
            exe = os.path.join(BUILD, f"{w}-" + _h(" ".join(LINK), *o))
            if not os.path.exists(exe):
                for old in sorted(glob.glob(os.path.join(BUILD, w + "-*")), key=os.path.getmtime)[:-6]:
                    os.unlink(old)
                _run(LINK + o + ["-o", exe + ".tmp"] + LIBS)
                os.rename(exe + ".tmp", exe)
            out[w] = exe
        # bound the cache
        objs_all = sorted(glob.glob(os.path.join(BUILD, "obj", "*.o")), key=os.path.getmtime)
        keep = set(objs)
        for o in objs_all[:-400]:
            if o not in keep:
                os.unlink(o)
        return out


if __name__ == "__main__":
    try:
        for k, v in build(tuple(sys.argv[1:] or ["mmc", "mmcapi", "h5gen"])).items():
            print(k, v)
    except BuildError as e:
        print(e)
        sys.exit(2)
