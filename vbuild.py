"""Builds the library under test from a copy of /repo's working tree and links the simulator."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
PY = sys.executable
WRAPS = ["malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign", "abort", "exit", "__assert_fail"]
THREADW = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_once", "pthread_mutex_init", "pthread_mutex_destroy",
           "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_spin_lock", "pthread_spin_unlock", "pthread_spin_init",
           "sched_yield", "call_once", "mtx_lock", "mtx_unlock", "mtx_init"]
SUB = "build/release/Linux-x86_64"


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update({"PYTHON": "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else "python3",
              "MTARGET_ARCH": "x86-64-v3", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"})
    for k in ("MAKEFLAGS", "MFLAGS", "MAKELEVEL", "CFLAGS", "LDFLAGS"):
        e.pop(k, None)
    return e


def sh(cmd, cwd=None, timeout=600, extra=None):
    e = env()
    if extra:
        e.update(extra)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    if p.returncode:
        raise BuildError("%s\n%s" % (cmd if isinstance(cmd, str) else " ".join(cmd)[:300], p.stdout[-3000:]))
    return p.stdout


def copy_tree(dst):
    """The parts of /repo a build reads, without build products."""
    def ign(d, names):
        out = []
        for n in names:
            if n in (".git", "build", "__pycache__") or n.endswith(".pyc"):
                out.append(n)
            if n == "data" and d.endswith("tests/checks"):
                out.append(n)
        return out
    shutil.copytree(REPO, dst, ignore=ign, symlinks=True)
    for g in ("scripts/getter.json",):
        p = os.path.join(dst, g)
        if os.path.exists(p) and not _tracked(g):
            os.unlink(p)
    return dst


def _tracked(p):
    r = subprocess.run(["git", "-C", REPO, "ls-files", "--error-unmatch", p], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return r.returncode == 0


def mpicflags():
    return subprocess.run(["mpicc", "--showme:compile"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


LIBS = ["src/binned/obj/libbinned.a", "src/binnedBLAS/obj/libbinnedblas.a", "src/reproBLAS/obj/libreproblas.a", "src/binnedMPI/obj/libbinnedmpi.a"]

# makevars: command-line overrides for make; they select a build a user can select.
VARIANTS = {
    "default": [],
    "scalar": ["AVX=false", "SSE2=false"],
    "sse": ["AVX=false", "OPTFLAGS=-O1"],
    "o1": ["OPTFLAGS=-O1"],
    "clang": ["CC=clang"] if shutil.which("clang") else ["OPTFLAGS=-O1"],
    "scalar0": ["AVX=false", "SSE2=false", "OPTFLAGS=-O0"],
    # the tuning files that come with the library, and tunings drawn from its own parameter ranges
    "deftune": ["OPTFLAGS=-O1", "ARGS=src/default_args.json"],
    "mactune": ["OPTFLAGS=-O1", "ARGS=src/tuned_args_peters_mac.json"],
    "drawnavx": ["OPTFLAGS=-O1"],
    "drawnsse": ["AVX=false", "OPTFLAGS=-O1", "MTARGET_ARCH=x86-64"],
    "drawnsisd": ["AVX=false", "SSE2=false", "OPTFLAGS=-O1", "MTARGET_ARCH=core2"],
}


def drawn_args(tree, seed, small, wild=False):
    """A tuning: every parameter of src/params.json drawn from its range; wild ones also hold
    values outside, which the generator brings back into range."""
    import random
    rng = random.Random(seed)
    with open(os.path.join(tree, "src/params.json")) as f:
        params = json.load(f)["parameters"]
    out = {}
    for n, q in sorted(params.items()):
        if q["flavor"] == "boolean":
            v = bool(rng.getrandbits(1))
        elif q["flavor"] == "poweroftwo":
            c = [1 << i for i in range(40) if q["minimum"] <= 1 << i <= q["maximum"]]
            v = rng.choice(c)
            if small and "_BLOCK" in n:   # small blocks, so that small matrices cross them
                v = c[rng.choice((0, 0, 1))] if "XY" in n else rng.choice(c[:4])
        else:
            v = rng.randrange(q["minimum"], q["maximum"] + 1, q.get("step") or 1)
        if wild and q["flavor"] != "boolean" and rng.random() < 0.3:
            v = rng.choice((0, -3, 1, 3, 7, q["minimum"] // 2, q["maximum"] + 1, q["maximum"] * 2, q["maximum"] * 4, q["maximum"] * 3 + 1, 10 ** 9))
        out[n] = v
    return out


def build_lib(tree, so, makevars=(), jobs=8):
    O = os.path.join(tree, SUB)
    mv = list(makevars)
    os.makedirs(os.path.join(tree, "doc"), exist_ok=True)
    sh(["make", "-j%d" % jobs, "-s"] + mv + [O + "/scripts/obj/getter"], cwd=tree)
    g = subprocess.run([O + "/scripts/obj/getter"], stdout=subprocess.PIPE, check=True).stdout
    open(os.path.join(tree, "scripts/getter.json"), "wb").write(g)
    sh(["make", "-j%d" % jobs, "-s"] + mv + ["BUILD_MPI=true", "MPICFLAGS=" + mpicflags(), "TARGET_ARCH=-fPIC"] + [O + "/" + l for l in LIBS], cwd=tree)
    objs = []
    for d in ("binned", "binnedBLAS", "reproBLAS", "binnedMPI"):
        p = os.path.join(O, "src", d, "obj")
        objs += sorted(os.path.join(p, f) for f in os.listdir(p) if f.endswith(".o"))
    # other objects a library archive pulls in
    have = {os.path.basename(o) for o in objs}
    cd = os.path.join(O, "src", "common", "obj")
    if os.path.isdir(cd):
        objs += sorted(os.path.join(cd, f) for f in os.listdir(cd) if f.endswith(".o") and f not in have)
    sh(["gcc", "-shared", "-o", so, "-Wl,-z,now"] + objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS + THREADW), "-lm"])
    return so


def make_variant(work, name, makevars=None, jobs=8, args_json=None, tree=None):
    t0 = time.time()
    tree = tree or copy_tree(os.path.join(work, "tree_" + name))
    mv = [m.replace("ARGS=", "ARGS=" + tree + "/") for m in VARIANTS.get(name, [])] if makevars is None else list(makevars)
    if name.startswith("drawn") and args_json is None:
        args_json = drawn_args(tree, "%s/%s" % (os.environ.get("VERIF_SEED", "1"), name), True, name == "drawnsisd")
    if args_json is not None:
        p = os.path.join(work, "args_%s.json" % name)
        json.dump(args_json, open(p, "w"))
        mv.append("ARGS=" + p)
    so = build_lib(tree, os.path.join(work, name + ".so"), mv, jobs)
    return so, time.time() - t0


def build_sim(work, fams):
    mc = mpicflags().split()
    src = os.path.join(HERE, "sim")
    cf = ["g++", "-std=c++17", "-O1", "-g1", "-ffp-contract=off", "-Wall", "-Wno-unused-function", "-I" + os.path.join(REPO, "include"), "-I" + src] + mc
    files = ["core"] + ["fam_" + f for f in fams]
    objs = [os.path.join(work, f + ".o") for f in files]

    def comp(f):
        sh(cf + ["-c", os.path.join(src, f + ".cc"), "-o", os.path.join(work, f + ".o")])
    with ThreadPoolExecutor(len(files)) as ex:
        list(ex.map(comp, files))
    return objs


def stub_missing(work, sos, objs):
    """Any further MPI entry point a changed library calls gets a stub that reports itself."""
    need = set()
    for so in sos:
        for l in subprocess.run(["nm", "-D", "-u", so], stdout=subprocess.PIPE, text=True).stdout.splitlines():
            s = l.split()[-1]
            if s.startswith(("MPI_", "PMPI_", "ompi_")):
                need.add(s)
    have = set()
    for o in objs:
        for l in subprocess.run(["nm", o], stdout=subprocess.PIPE, text=True).stdout.splitlines():
            p = l.split()
            if len(p) == 3 and p[1] in "TDBRGVWC":
                have.add(p[2])
    miss = sorted(need - have)
    c = os.path.join(work, "stubs.c")
    with open(c, "w") as f:
        for s in miss:
            f.write(("char %s[1024];\n" if s.startswith("ompi_") else "int %s(){return 0;}\n") % s)
        f.write("int verif_stub_count = %d;\n" % len(miss))
    sh(["gcc", "-w", "-c", c, "-o", c[:-2] + ".o"])
    return [c[:-2] + ".o"], miss


def link_sim(work, objs, sos):
    st, miss = stub_missing(work, sos, objs)
    exe = os.path.join(work, "sim")
    sh(["g++", "-rdynamic", "-o", exe] + objs + st + ["-ldl", "-lpthread"])
    return exe, miss
