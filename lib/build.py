"""Builds LUE from /repo's working tree into /verif/build (git-ignored), and the drivers against it."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LUE_REPO", "/repo")
BUILD = os.environ.get("LUE_VERIF_BUILD", os.path.join(VERIF, "build"))
LUE = os.path.join(BUILD, "lue")
DRV = os.path.join(BUILD, "drv")
VENV = "/opt/lue-venv"
PYTHON = os.path.join(VENV, "bin", "python3")
ENV = dict(os.environ, PATH=VENV + "/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), CC="/usr/bin/gcc", CXX="/usr/bin/g++",
           LC_ALL="C.UTF-8")

TARGETS = ["lue_hdf5", "lue_data_model", "lue_data_model_hl", "lue_gdal", "lue_py", "lue_qa"]


class BuildError(Exception):
    pass


def _run(cmd, cwd, log):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with open(log, "a") as f:
        f.write("$ " + " ".join(cmd) + "\n" + r.stdout + "\n")
    if r.returncode:
        raise BuildError("%s failed (%d):\n%s" % (" ".join(cmd), r.returncode, r.stdout[-4000:]))
    return r.stdout


def _digest():
    """sha256 per source file; used to notice changed files that have an old time stamp"""
    res = {}
    for top in ["source", "environment", "cmake", "document"]:
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = [x for x in ds if x not in (".git", "__pycache__")]
            for f in fs:
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                with open(p, "rb") as h:
                    res[p] = hashlib.sha256(h.read()).hexdigest()
    p = os.path.join(REPO, "CMakeLists.txt")
    with open(p, "rb") as h:
        res[p] = hashlib.sha256(h.read()).hexdigest()
    return res


def build(drivers=(), targets=None, quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(drivers, targets or TARGETS)


def _build(drivers, targets):
    log = os.path.join(BUILD, "build.log")
    open(log, "w").close()
    man = os.path.join(BUILD, "manifest.json")
    new = _digest()
    old = {}
    if os.path.exists(man):
        old = json.load(open(man))
    stamp = old.get("stamp", 0)
    oldf = old.get("files", {})
    stale = [p for p in new if oldf.get(p) != new[p] and oldf and os.path.getmtime(p) <= stamp + 1] \
        + [p for p in oldf if p not in new]
    if stale or (os.path.isdir(LUE) and not oldf):
        shutil.rmtree(LUE, ignore_errors=True)
        shutil.rmtree(DRV, ignore_errors=True)
    now = time.time()
    if not os.path.exists(os.path.join(LUE, "build.ninja")):
        os.makedirs(LUE, exist_ok=True)
        _run(["cmake", "-S", REPO, "-B", LUE, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
              "-DCMAKE_CXX_FLAGS_DEBUG=-O0", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
              "-DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS", "-DLUE_BUILD_DATA_MODEL=ON",
              "-DLUE_DATA_MODEL_WITH_PYTHON_API=ON", "-DLUE_DATA_MODEL_WITH_UTILITIES=OFF",
              "-DLUE_BUILD_GDAL=ON", "-DLUE_GDAL_REQUIRED=ON", "-DLUE_BUILD_FRAMEWORK=OFF",
              "-DLUE_BUILD_VIEW=OFF", "-DLUE_BUILD_DOCUMENTATION=OFF", "-DLUE_BUILD_QUALITY_ASSURANCE=ON",
              "-DLUE_QUALITY_ASSURANCE_WITH_PYTHON_API=ON", "-DLUE_QUALITY_ASSURANCE_WITH_TESTS=OFF",
              "-DLUE_DATA_MODEL_WITH_TESTS=OFF", "-DPython_EXECUTABLE=" + PYTHON,
              "-Dpybind11_DIR=" + VENV + "/lib/python3.12/site-packages/pybind11/share/cmake/pybind11"],
             REPO, log)
    _run(["ninja", "-C", LUE] + targets, REPO, log)
    if drivers:
        _drivers(list(drivers), log)
    tmp = man + ".tmp"
    json.dump({"stamp": now, "files": new}, open(tmp, "w"))
    os.replace(tmp, man)
    return dict(lue=LUE, drv=DRV)


LIBS = ["lue_data_model_hl", "lue_data_model", "lue_gdal", "lue_hdf5", "lue_qa"]


def _drivers(names, log):
    names = [n for n in names if not os.path.exists(os.path.join(VERIF, "driver", n + ".py"))]
    os.makedirs(DRV, exist_ok=True)
    inc = []
    for m in ["hdf5", "cxx", "hl", "gdal"]:
        inc += ["-I" + os.path.join(REPO, "source/data_model", m, "include"),
                "-I" + os.path.join(LUE, "source/data_model", m, "include")]
    inc += ["-I" + os.path.join(REPO, "source/quality_assurance/cxx/include"),
            "-I" + os.path.join(LUE, "source/quality_assurance/cxx/include"),
            "-I" + os.path.join(REPO, "source/shared/include"), "-I" + os.path.join(LUE, "source/shared/include")]
    inc += ["-isystem", "/usr/include/hdf5/serial", "-isystem", "/usr/include/gdal"]
    libdir, found = None, {}
    for d, _, fs in os.walk(LUE):
        for f in fs:
            for l in LIBS:
                if f == "lib%s.so" % l or (l == "lue_qa" and f == "liblue_qa.a"):
                    found[l] = os.path.join(d, f)
    srcdir = os.path.join(VERIF, "driver")
    out = ["cxxflags = -DH5_USE_110_API -std=c++23 -O1 -fPIC -w " + " ".join(inc),
           "rule cxx", "  command = /usr/bin/g++ $cxxflags -MD -MF $out.d -c $in -o $out", "  depfile = $out.d",
           "  deps = gcc",
           "rule link", "  command = /usr/bin/g++ $shared $in -o $out $libs", ""]
    for n in names:
        src = os.path.join(srcdir, n + ".cpp")
        libs = [found[l] for l in LIBS if l in found]
        rp = sorted({os.path.dirname(x) for x in libs})
        out += ["build %s.o: cxx %s" % (n, src),
                "build %s: link %s.o | %s" % (n, n, " ".join(libs)),
                "  libs = %s %s -lhdf5_serial -lgdal" % (" ".join(libs), " ".join("-Wl,-rpath," + x for x in rp)),
                "  shared = %s" % ("-shared" if n.endswith(".so") else "")]
    text = "\n".join(out) + "\n"
    fn = os.path.join(DRV, "-".join(names) + ".ninja")
    if not os.path.exists(fn) or open(fn).read() != text:
        open(fn, "w").write(text)
    _run(["ninja", "-C", DRV, "-f", fn], DRV, log)


def pythonpath():
    for d, _, fs in os.walk(os.path.join(LUE, "lib")):
        if any(f.startswith("lue_py") and f.endswith(".so") for f in fs):
            return os.path.dirname(d)
    raise BuildError("lue_py not found")


if __name__ == "__main__":
    t = time.time()
    build(sys.argv[1:])
    print("built in %.1f s" % (time.time() - t))
