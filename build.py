#!/usr/bin/env python3
"""Out-of-tree build of /repo's working tree plus the simulators.

  build.py asan      -> build/asan/{sim,libube.so,mods/*.so}
  build.py thr       -> build/thr/simthr   (library code instrumented with -fsanitize=thread,
                        linked against our own scheduler runtime, not against libtsan)
  build.py all

Objects are cached under build/<cfg>/obj by a hash of everything that goes into them.
"""
import fcntl, hashlib, os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
CXX = "/usr/bin/g++"
MODULES = {"path": "path", "txtfile": "txt", "inifile": "ini", "gnuplot": "gnuplot", "gedfile": "ged",
           "sndfile": "snd", "xmlfile": "xml", "graph": "graph", "curl": "curl"}
MODLIBS = {"sndfile": ["-lsndfile"], "xmlfile": ["-lexpat"], "curl": ["-lcurl"], "gedfile": [], "graph": ["-lboost_regex"]}
# Not part of the library as configured with MKL (see lube/CMakeLists.txt), or needing a display
EXCLUDE = {"dft-kiss", "transpose-adhoc", "throw", "qwt"}
INC = ["-I" + REPO, "-isystem", "/usr/include/mkl"]
DEFS = ["-DNDEBUG", "-DHAVE_BACKTRACE", "-DHAVE_MKL"]
BASE = ["-std=gnu++17", "-g1", "-fPIC", "-fno-omit-frame-pointer", "-w", "-U_FORTIFY_SOURCE"]
LIBS = ["-lboost_regex", "-lmkl_intel_lp64", "-lmkl_sequential", "-lmkl_core", "-lpthread", "-lm", "-ldl"]


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def sources():
    """(core, modules): lists of (name, path)"""
    core, mods = [], []
    for p in sorted(glob.glob(REPO + "/lube/*.cpp")):
        n = os.path.basename(p)[:-4]
        if n in EXCLUDE:
            continue
        (mods if n in MODULES else core).append((n, p))
    return core, mods


def compile_all(jobs, objdir, headers):
    """jobs: list of (name, path, flags); returns {name: object}"""
    os.makedirs(objdir, exist_ok=True)
    out, todo = {}, []
    hd = digest(headers)
    for name, path, flags, *post in jobs:
        post = post[0] if post else None
        key = digest([path], hd + " ".join(flags) + " ".join(post or []))
        obj = os.path.join(objdir, "%s-%s.o" % (name, key))
        out[name] = obj
        if not os.path.exists(obj):
            todo.append((os.path.getsize(path), path, flags, obj, post))

    def one(t):
        _, path, flags, obj, post = t
        tmp = obj + ".tmp%d" % os.getpid()
        sh([CXX] + flags + ["-c", path, "-o", tmp])
        if post:
            sh(["objcopy"] + post + [tmp])
        os.rename(tmp, obj)
    # The slow ones first
    slow = ("math", "clapack", "graph", "string", "path", "sc_")
    todo.sort(key=lambda t: (not os.path.basename(t[1]).startswith(slow), -t[0]))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(one, todo))
    return out


def link(out, cmd, inputs):
    key = digest(inputs, " ".join(cmd))
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return
    sh(cmd + ["-o", out + ".tmp"])
    os.rename(out + ".tmp", out)
    with open(stamp, "w") as f:
        f.write(key)


def headers():
    return glob.glob(REPO + "/lube/*.h") + glob.glob(HERE + "/sim/*.h")


def build_asan():
    d = os.path.join(BUILD, "asan")
    os.makedirs(d + "/mods", exist_ok=True)
    core, mods = sources()
    f = BASE + ["-O1", "-fsanitize=address", "-Ddlsym=sim_dlsym"] + DEFS + INC
    jobs = [("ube_" + n, p, f) for n, p in core] + [("mod_" + n, p, f) for n, p in mods]
    sims = [(os.path.basename(p)[:-4], p) for p in sorted(glob.glob(HERE + "/sim/*.cpp"))
            if not os.path.basename(p).startswith("thr_")]
    # The simulator itself is not instrumented: only the code under test is
    fs = BASE + ["-O1"] + DEFS + INC + ["-I" + HERE + "/sim"]
    jobs += [(n, p, fs) for n, p in sims]
    objs = compile_all(jobs, d + "/obj", headers())
    lib = d + "/libube.so"
    ins = [objs["ube_" + n] for n, _ in core]
    link(lib, [CXX, "-shared", "-fsanitize=address", "-Wl,-Bsymbolic-functions"] + ins + LIBS, ins)
    tgts = []
    for n, p in mods:
        o = d + "/mods/lib%s.so" % MODULES[n]
        i = [objs["mod_" + n]]
        tgts.append((o, [CXX, "-shared", "-fsanitize=address"] + i + ["-L" + d, "-lube"] + MODLIBS.get(n, []), i + [lib]))
    i = [objs[n] for n, _ in sims]
    tgts.append((d + "/sim", [CXX, "-fsanitize=address", "-rdynamic"] + i +
                 ["-L" + d, "-lube", "-Wl,-rpath," + d, "-lsndfile", "-lexpat", "-lcurl"] + LIBS, i + [lib]))
    with ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(lambda t: link(*t), tgts))
    return d


# In the instrumented objects these go to the simulator (thr_rt.cpp)
RENAME = ["memcpy", "memmove", "memset", "memcmp", "strlen", "strcpy", "strtok", "localtime", "gmtime", "asctime", "ctime",
          "setlocale", "setenv", "putenv", "getenv", "rand", "srand", "drand48"]


def build_thr():
    d = os.path.join(BUILD, "thr")
    os.makedirs(d + "/mods", exist_ok=True)
    core, mods = sources()
    f = BASE + ["-O1", "-fsanitize=thread", "-Ddlsym=sim_dlsym"] + DEFS + INC
    fs = BASE + ["-O1", "-DSIM_THR"] + DEFS + INC + ["-I" + HERE + "/sim"]
    ren = sum([["--redefine-sym", "%s=sim_%s" % (n, n)] for n in RENAME], [])
    jobs = [("ube_" + n, p, f, ren) for n, p in core]
    jobs += [("mod_" + n, p, f, ren) for n, p in mods if n != "curl"]
    mods = [m for m in mods if m[0] != "curl"]
    sims = ["core", "vos", "net", "thr_rt", "thr_sc", "thr_work"]
    for n in sims:
        # the workload runs inline code of the library's headers, so it is instrumented too
        w = n == "thr_work"
        jobs.append((n, HERE + "/sim/%s.cpp" % n, fs + (["-fsanitize=thread"] if w else []), ren if w else None))
    objs = compile_all(jobs, d + "/obj", headers())
    lib = d + "/libube.so"
    ins = [objs["ube_" + n] for n, _ in core]
    link(lib, [CXX, "-shared", "-Wl,-Bsymbolic-functions"] + ins + LIBS, ins)
    tgts = []
    for n, p in mods:
        o = d + "/mods/lib%s.so" % MODULES[n]
        i = [objs["mod_" + n]]
        tgts.append((o, [CXX, "-shared"] + i + ["-L" + d, "-lube"] + MODLIBS.get(n, []), i + [lib]))
    i = [objs[n] for n in sims]
    tgts.append((d + "/simthr", [CXX, "-rdynamic"] + i + ["-L" + d, "-lube", "-Wl,-rpath," + d, "-lsndfile", "-lexpat"] + LIBS, i + [lib]))
    with ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(lambda t: link(*t), tgts))
    return d


def main():
    what = sys.argv[1:] or ["all"]
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            if "asan" in what or "all" in what:
                build_asan()
            if "thr" in what or "all" in what:
                build_thr()
        except BuildError as e:
            sys.stderr.write("BUILD FAILED\n%s\n" % e)
            return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
