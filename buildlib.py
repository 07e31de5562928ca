"""Builds harness executables from /repo's working tree.

Objects are cached under /verif/build (git-ignored) and reused only when the
command and the content of every /repo and /verif file the compiler read are
unchanged, so a check always sees the current tree.
"""
import fcntl, hashlib, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
LIB = "/usr/lib/x86_64-linux-gnu"

GUARD = "HPSINT_SIM"

SYS = [LIB + "/openmpi/include", LIB + "/openmpi/include/openmpi",
       "/usr/include/petsc", "/usr/include/trilinos",
       "/usr/include/hdf5/openmpi", "/usr/include/scotch",
       "/usr/include/suitesparse", "/usr/include/opencascade",
       "/usr/include/slepc"]

LIBS = [LIB + "/libdeal.ii.so.9.5.1", "-ltbb", "-ltrilinos_nox",
        "-ltrilinos_noxepetra", "-ltrilinos_epetra",
        "-ltrilinos_teuchosnumerics", "-ltrilinos_teuchoscomm",
        "-ltrilinos_teuchosparameterlist", "-ltrilinos_teuchosparser",
        "-ltrilinos_teuchoscore", "-ltrilinos_kokkosalgorithms",
        "-ltrilinos_kokkoscontainers", "-ltrilinos_kokkoscore",
        LIB + "/openmpi/lib/libmpi_cxx.so", "-lboost_iostreams",
        "-lboost_serialization", "-lboost_system", "-lp4est", "-lsc",
        LIB + "/openmpi/lib/libmpi.so", "-lpetsc", "-ldl"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd)[:4000],
                                                     r.stdout[-6000:]))
    return r.stdout


def fhash(p):
    try:
        with open(p, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return "missing"


def read_deps(dfile):
    with open(dfile) as f:
        t = f.read().replace("\\\n", " ")
    t = t.split(":", 1)[1].split()
    # only files that can change: the code under test and the harnesses
    return sorted({os.path.abspath(x) for x in t
                   if os.path.abspath(x).startswith((REPO + "/", VERIF + "/"))})


def prepare():
    os.makedirs(BUILD, exist_ok=True)
    compat = os.path.join(BUILD, "compat")
    sh([os.path.join(VERIF, "compat", "gen.sh"), compat])
    # what cmake's configure step writes
    gen = os.path.join(BUILD, "gen", "pf-applications", "base")
    os.makedirs(gen, exist_ok=True)
    src = os.path.join(REPO, "include/pf-applications/base/revision.h.in")
    with open(src) as f:
        t = f.read()
    for v in ("PF_APPLICATIONS_GIT_BRANCH", "PF_APPLICATIONS_GIT_REVISION",
              "PF_APPLICATIONS_GIT_SHORTREV", "PF_APPLICATIONS_GIT_TAG"):
        t = t.replace("@%s@" % v, "sim")
    t = t.replace("#cmakedefine", "//#cmakedefine")
    dst = os.path.join(gen, "revision.h")
    if not os.path.exists(dst) or open(dst).read() != t:
        with open(dst, "w") as f:
            f.write(t)
    return compat


def flags(compat, extra=()):
    f = ["-std=gnu++20", "-O1", "-g0", "-w", "-DNDEBUG", "-pthread",
         "-include", "deal.II/base/compat_index_owner.h",
         "-isystem", compat, "-D" + GUARD]
    f += list(extra)
    f += ["-I" + os.path.join(REPO, "include"),
          "-I" + os.path.join(REPO, "applications/sintering/include"),
          "-I" + os.path.join(REPO, "applications/structural/include"),
          "-I" + os.path.join(BUILD, "gen"), "-I" + VERIF]
    for s in SYS:
        f += ["-isystem", s]
    return f


def compile_one(src, fl, cc="g++"):
    cmd = [cc] + fl + ["-c", src]
    key = hashlib.sha256("\0".join(cmd).encode()).hexdigest()[:20]
    base = os.path.basename(src).rsplit(".", 1)[0]
    obj = os.path.join(BUILD, "o", "%s-%s.o" % (base, key))
    meta = obj + ".json"
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if all(fhash(p) == h for p, h in m.items()):
                return obj
        except Exception:
            pass
    if os.path.exists(meta):
        os.unlink(meta)
    tmp = "%s.%d.tmp" % (obj, os.getpid())
    sh(cmd + ["-o", tmp, "-MD", "-MF", tmp + ".d"])
    deps = read_deps(tmp + ".d")
    os.unlink(tmp + ".d")
    m = {p: fhash(p) for p in deps}
    os.rename(tmp, obj)
    with open(meta + ".tmp%d" % os.getpid(), "w") as f:
        json.dump(m, f)
    os.rename(meta + ".tmp%d" % os.getpid(), meta)
    return obj


def build(name, sources, repo_sources=(), defs=(), opt=None):
    """Compile and link harness `name`; returns the executable's path."""
    compat = prepare()
    lock = open(os.path.join(BUILD, ".lock-" + name), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    fl = flags(compat, defs)
    if opt:
        fl[1] = opt
    eng = ["-std=gnu++20", "-O2", "-g0", "-w", "-pthread", "-I" + VERIF]
    for s in SYS[:2]:
        eng += ["-isystem", s]
    jobs = [(os.path.join(VERIF, "sim", x), eng)
            for x in ("guest.cc", "controller.cc")]
    h = [(os.path.join(VERIF, "harness", x), fl) for x in sources]
    r = [(os.path.join(REPO, x), fl) for x in repo_sources]
    jobs = h + r + jobs  # long ones first
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    guest = objs[len(h) + len(r)]
    stubs = guest[:-2] + "_stubs"
    if not os.path.exists(stubs + ".o") or \
            os.path.getmtime(stubs + ".o") < os.path.getmtime(guest):
        tmp = stubs + ".%d.c" % os.getpid()
        sh([os.path.join(VERIF, "sim", "gen_stubs.sh"), guest, tmp])
        sh(["gcc", "-O1", "-w", "-c", tmp, "-o", tmp + ".o"])
        os.rename(tmp + ".o", stubs + ".o")
        os.unlink(tmp)
        if os.path.exists(tmp + ".have"):
            os.unlink(tmp + ".have")
    objs.append(stubs + ".o")
    key = hashlib.sha256("\0".join(fhash(o) for o in objs).encode() +
                         " ".join(LIBS).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, "%s-%s" % (name, key))
    if not os.path.exists(exe):
        for old in os.listdir(BUILD):
            if old.startswith(name + "-") and len(old) == len(name) + 17:
                os.unlink(os.path.join(BUILD, old))
        tmp = exe + ".tmp%d" % os.getpid()
        sh(["g++", "-fuse-ld=gold", "-rdynamic", "-pthread"] + objs +
           ["-o", tmp, "-Wl,--as-needed"] + LIBS)
        os.rename(tmp, exe)
    lock.close()
    return exe


LIBSRC = ["inst.cc", "src/grain_tracker/distributed_stitching.cc",
          "src/base/timer.cc", "src/base/output.cc", "src/grid/grid_tools.cc"]

if __name__ == "__main__":
    import props
    print(build(*props.BUILDS[sys.argv[1]]))
