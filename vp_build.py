"""Builds the drivers from /repo's current working tree (nothing is read from git, nothing is written to /repo)."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VP_REPO", "/repo")
B = os.path.join(V, "build")
RENAME = [x for f in ("malloc", "free", "calloc", "realloc") for x in ("--redefine-sym", f"{f}=vp_{f}")]
ASAN = "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all".split()
# One sanitizer family per build.
VARIANTS = {
    # name: (C compiler, C++ compiler, flags, sut, track allocations)
    "asan": ("clang", "clang++", ASAN, "src", True),
    "gcc": ("gcc", "g++", ASAN[:1] + ["-O2"] + ASAN[1:], "src", True),
    "dist": ("clang", "clang++", ASAN, "dist", True),
    "regen": ("clang", "clang++", ASAN, "regen", True),
    "tsan": ("clang", "clang++", "-O1 -g -fno-omit-frame-pointer -fsanitize=thread -DVP_NOTRACK".split(), "src", False),
    "plain": ("gcc", "g++", "-O1 -g -fno-omit-frame-pointer -DVP_NOTRACK -DVP_PLAIN".split(), "src", False),
}


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        raise RuntimeError("build failed: " + " ".join(cmd) + "\n" + p.stdout[-4000:])


def lib_sources(sut, work):
    inc = ["-I" + V + "/harness"]
    if sut == "src":
        src = sorted(glob.glob(f"{R}/src/embedDB/*.c") + glob.glob(f"{R}/src/spline/*.c") + glob.glob(f"{R}/src/query-interface/*.c") + glob.glob(f"{R}/lib/EmbedDB-Utility/*.c"))
        return src, inc + [f"-I{R}", f"-I{R}/src", f"-I{R}/lib/EmbedDB-Utility"]
    if sut == "dist":
        return sorted(glob.glob(f"{R}/lib/Distribution/*.c")), inc + [f"-I{R}/lib/Distribution", "-DDIST", "-DSUT_DIST"]
    # a distribution regenerated by the repository's own script, on a copy
    t = os.path.join(work, "amalgam")
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    for d in ("amalgamation", "scripts", "src", "lib/EmbedDB-Utility", "lib/Distribution"):
        if os.path.isdir(f"{R}/{d}"):
            shutil.copytree(f"{R}/{d}", f"{t}/{d}")
    for f in os.listdir(t + "/lib/Distribution"):
        if f.endswith((".c", ".h")):
            os.remove(f"{t}/lib/Distribution/{f}")
    run([sys.executable, "amalgamation.py"], cwd=t + "/amalgamation")
    return sorted(glob.glob(f"{t}/lib/Distribution/*.c")), inc + [f"-I{t}/lib/Distribution", "-DDIST", "-DSUT_DIST"]


DESK = ["FILE_READ", "FILE_WRITE", "FILE_ERASE", "FILE_CLOSE", "FILE_FLUSH", "FILE_OPEN", "MOCK_FILE_ERASE"]


def file_interfaces():
    """The file interfaces driven by the C27 harness: (source, is C++, flags). Their functions share names, so each gets a prefix;
    the Arduino ones are built against the host stand-ins in harness/fakes."""
    fk, st = [f"-I{V}/harness/fakes", f"-I{R}", f"-I{R}/src"], "-std=gnu17"
    sd = ["-DARDUINO=100", f"-I{R}/lib/SD-Wrapper"]
    return [(f"{R}/lib/Desktop-File-Interface/desktopFileInterface.c", False, [f"-I{R}", f"-I{R}/src", st] + [f"-D{x}=desk_{x}" for x in DESK]),
            (f"{R}/lib/SD-File-Interface/SDFileInterface.c", False, fk + sd + [st] + [f"-D{x}=sdi_{x}" for x in DESK]),
            (f"{R}/lib/SD-Wrapper/sdcard_c_iface.cpp", True, fk + sd),
            (f"{R}/lib/Dataflash-File-Interface/dataflashFileInterface.c", False, fk + [f"-I{R}/lib/Dataflash-Wrapper", st])]


def key(variant):
    h = hashlib.sha256(variant.encode())
    pats = [f"{R}/src/**/*.[ch]", f"{R}/lib/EmbedDB-Utility/*", f"{R}/lib/Distribution/*", f"{R}/lib/*-File-Interface/*", f"{R}/lib/*-Wrapper/*.[ch]*", f"{R}/amalgamation/*.py", V + "/harness/**", V + "/vp_build.py"]
    for p in pats:
        for f in sorted(glob.glob(p, recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode() + b"\0" + open(f, "rb").read())
    return h.hexdigest()[:16]


def build(variant):
    """Returns the path of the driver for this variant, building it when the sources changed."""
    cc, cxx, flags, sut, track = VARIANTS[variant]
    os.makedirs(B, exist_ok=True)
    out = f"{B}/{variant}-{key(variant)}"
    with open(f"{B}/lock-{variant}", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out + "/drv"):
            return out + "/drv"
        for old in glob.glob(f"{B}/{variant}-*"):
            shutil.rmtree(old, ignore_errors=True)
        work = out + ".tmp"
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        src, inc = lib_sources(sut, work)
        jobs, objs = [], []

        def lib(f, o, extra=[]):
            run([cc, *flags, "-w", *inc, *extra, "-c", f, "-o", o])
            if track:
                run(["objcopy", *RENAME, o])
        for i, f in enumerate(src):
            o = f"{work}/sut{i}_{os.path.basename(f)}.o"
            objs.append(o)
            jobs.append((lib, f, o))
        def har(f, o):
            run([cxx, "-std=c++17", *flags, *(["-fno-sanitize=null"] if cxx == "g++" and "-fsanitize=address,undefined" in flags else []), "-w", *inc, f"-I{V}/harness/fakes", "-c", f, "-o", o])
        for f in sorted(glob.glob(V + "/harness/*.cpp")):
            o = f"{work}/h_{os.path.basename(f)}.o"
            objs.append(o)
            jobs.append((har, f, o))

        def fil(f, o, cpp, extra):
            run([cxx if cpp else cc, *flags, "-w", *extra, "-c", f, "-o", o])
            if track and not cpp:
                run(["objcopy", *RENAME, o])
        def exa(f, o):
            run([cc, *flags, "-w", *inc, f"-I{R}/src", f"-I{R}/lib/Desktop-File-Interface", "-c", f, "-o", o])
            if track:
                run(["objcopy", *RENAME, o])
        objs.append(f"{work}/x_example.o")
        jobs.append((exa, V + "/harness/example.c", objs[-1]))
        for f, cpp, extra in file_interfaces():
            o = f"{work}/f_{os.path.basename(f)}.o"
            objs.append(o)
            jobs.append((fil, f, o, cpp, extra))
        with ThreadPoolExecutor(8) as ex:
            for r in [ex.submit(*j) for j in jobs]:
                r.result()
        run([cxx, *flags, *objs, "-o", work + "/drv", "-lm", "-lpthread"])
        os.rename(work, out)
    return out + "/drv"


if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan"]:
        print(build(v))
