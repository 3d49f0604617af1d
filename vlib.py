"""Builds what the checks need from /repo's working tree, runs drivers, writes evidence."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")

class CheckError(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout

def fhash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]

def headers():
    out = []
    for d, sub, fs in os.walk(os.path.join(REPO, "include")):
        out += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp"))]
    s = os.path.join(REPO, "src")
    for d, sub, fs in os.walk(s):
        if "test" in sub: sub.remove("test")
        if "bench" in sub: sub.remove("bench")
        out += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp", ".inc"))]
    return out

def sources(ext):
    s = os.path.join(REPO, "src")
    return sorted(os.path.join(s, f) for f in os.listdir(s) if f.endswith(ext))

YY = os.path.join(VERIF, "engine/yyjson")
INC = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + YY]
COMMON = ["-D_GNU_SOURCE", "-DA0_EXT_NLOHMANN=1"]

FLAV = {
    # instrumented for the controlled scheduler
    "sched": dict(cc="clang", cxx="clang++", c=["-std=c11", "-O1", "-g", "-DNDEBUG", "-fsanitize=thread", "-femulated-tls",
                  "-fno-inline-functions", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-mllvm", "-tsan-instrument-read-before-write=1",
                  "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-w"], cxxf=["-std=c++17"]),
    # as shipped
    "prod": dict(cc="gcc", cxx="g++", c=["-std=c11", "-O2", "-g", "-DNDEBUG", "-w"], cxxf=["-std=c++11"]),
    # loud memory errors
    "asan": dict(cc="gcc", cxx="g++", c=["-std=c11", "-O1", "-g", "-DNDEBUG", "-w", "-fsanitize=address,bounds,integer-divide-by-zero", "-fno-sanitize-recover=all",
                 "-fno-omit-frame-pointer"], cxxf=["-std=c++11"]),
}
REDIR = """syscall gettid getpid clock_gettime sched_yield nanosleep usleep pthread_create pthread_join pthread_detach pthread_self pthread_equal
pthread_once pthread_atfork pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_signal pthread_cond_broadcast
malloc free calloc realloc strdup open read close getrandom getentropy jrand48 nrand48 mrand48 lrand48 srand48 rand random srand srandom rand_r time""".split()
# calls of the library that drivers of topics replace
WEAK = "a0_file_open a0_file_close".split()

# calls of the library that act on the file system (flavour fs: as sched, and these are redirected to engine/fs.cpp)
FSREDIR = """open openat creat close read write mkstemp mkostemp mkstemps stat lstat fstat fstatat access fchmod fchown ftruncate fallocate posix_fallocate
fsync chmod fchmodat truncate mkdir mkdirat link linkat symlink rename renameat renameat2 unlink unlinkat rmdir remove opendir fdopendir readdir closedir
mmap munmap eventfd epoll_create1 epoll_create epoll_ctl epoll_wait inotify_init inotify_init1 inotify_add_watch inotify_rm_watch poll""".split()

def _lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def _prune(d, keep):
    """Keep at most `keep` newest entries of a cache directory."""
    es = sorted((os.path.join(d, e) for e in os.listdir(d)), key=os.path.getmtime)
    for e in es[:-keep] if len(es) > keep else []:
        if os.path.isfile(e): os.unlink(e)

def build_objs(flavour, want_cpp):
    fl = FLAV[flavour]
    cache = os.path.join(BUILD, "obj-" + flavour)
    os.makedirs(cache, exist_ok=True)
    hh = fhash(headers() + [os.path.join(YY, "yyjson.h")])
    flags = " ".join(fl["c"] + fl["cxxf"] + COMMON + [fl["cc"]])
    jobs, objs = [], []
    srcs = sources(".c") + [os.path.join(YY, "yyjson.c")]
    if want_cpp: srcs += sources(".cpp")
    for s in srcs:
        cpp = s.endswith(".cpp")
        with open(s, "rb") as f: sh_ = hashlib.sha256(f.read() + hh.encode() + flags.encode() + s.encode()).hexdigest()[:24]
        o = os.path.join(cache, os.path.basename(s).replace(".", "_") + "-" + sh_ + ".o")
        objs.append(o)
        if os.path.exists(o):
            os.utime(o)
            continue
        cf = [x for x in fl["c"] if not (cpp and x.startswith("-std="))] + (fl["cxxf"] if cpp else [])
        jobs.append([fl["cxx"] if cpp else fl["cc"]] + cf + COMMON + INC + ["-fPIC", "-c", s, "-o", o + ".tmp"])
    def run(cmd):
        sh(cmd)
        os.rename(cmd[-1], cmd[-1][:-4])
    with ThreadPoolExecutor(8) as ex: list(ex.map(run, jobs))
    _prune(cache, 400)
    return objs

def lib(flavour, want_cpp=False):
    objs = build_objs("sched" if flavour == "fs" else flavour, want_cpp)
    key = hashlib.sha256((" ".join(objs) + " ".join(REDIR + WEAK + FSREDIR)).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, "lib")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s%s-%s.%s" % (flavour, "-cpp" if want_cpp else "", key, "o" if flavour in ("sched", "fs") else "a"))
    if os.path.exists(out):
        os.utime(out)
        return out
    if flavour in ("sched", "fs"):
        t = out + ".tmp.o"
        sh(["ld", "-r", "-o", t] + objs)
        args = []
        for r in REDIR:
            if flavour == "sched" or r not in FSREDIR: args += ["--redefine-sym", "%s=mc_%s" % (r, r)]
        if flavour == "fs":
            for r in FSREDIR: args += ["--redefine-sym", "%s=fs_%s" % (r, r)]
        for w in WEAK: args += ["--weaken-symbol", w]
        sh(["objcopy"] + args + ["--rename-section", ".data=mcdata", "--rename-section", ".bss=mcbss,alloc,load,data,contents", t, out + ".tmp"])
        os.unlink(t)
    else:
        if os.path.exists(out + ".tmp"): os.unlink(out + ".tmp")
        sh(["ar", "rcs", out + ".tmp"] + objs)
    os.rename(out + ".tmp", out)
    _prune(d, 60)
    return out

def driver(name, flavour, want_cpp=False, extra=()):
    """Builds checks/<name>.cpp against the library; returns the path of the executable."""
    lk = _lock()
    try:
        l = lib(flavour, want_cpp)
        src = os.path.join(VERIF, "checks", name + ".cpp")
        deps = [src] + [os.path.join(VERIF, "checks", f) for f in os.listdir(os.path.join(VERIF, "checks")) if f.endswith((".h", ".hpp"))]
        deps += [os.path.join(VERIF, "engine", f) for f in os.listdir(os.path.join(VERIF, "engine")) if f.endswith((".h", ".cpp", ".c"))]
        key = hashlib.sha256((fhash(deps + headers()) + l + " ".join(extra)).encode()).hexdigest()[:20]
        d = os.path.join(BUILD, "bin")
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, name + "-" + flavour + "-" + key)
        if os.path.exists(out):
            os.utime(out)
            return out
        if flavour in ("sched", "fs"):
            eng = []
            for m in ["mc"] + (["fs"] if flavour == "fs" else []):
                o = os.path.join(BUILD, m + "-" + fhash([os.path.join(VERIF, "engine", f) for f in (m + ".cpp", "mc.h", m + ".h")]) + ".o")
                if not os.path.exists(o):
                    sh(["clang++", "-std=c++17", "-O2", "-g", "-fno-stack-protector", "-Wall", "-c", os.path.join(VERIF, "engine", m + ".cpp"), "-o", o + ".tmp"])
                    os.rename(o + ".tmp", o)
                eng.append(o)
            cmd = ["clang++", "-std=c++17", "-O1", "-g", "-fno-stack-protector", "-femulated-tls", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-mllvm", "-tsan-instrument-read-before-write=1",
                   "-Wall", "-Wno-unused-parameter", "-Wno-writable-strings", "-Wno-c99-designator"] + COMMON + INC[:2]
            link = ["clang++", "-no-pie", "-fsanitize=thread", "-fno-sanitize-link-runtime"]
        else:
            fl = FLAV[flavour]
            eng = []
            cf = [x for x in fl["c"] if not x.startswith("-std=")]
            cmd = [fl["cxx"], "-std=c++17"] + cf + COMMON + INC
            link = [fl["cxx"]] + [x for x in cf if x.startswith("-fsanitize")]
        cmd += list(extra)
        od = os.path.join(BUILD, "drv")
        os.makedirs(od, exist_ok=True)
        o = os.path.join(od, "%s-%s-%s.o" % (name, flavour, hashlib.sha256((fhash(deps + headers()) + " ".join(cmd)).encode()).hexdigest()[:20]))
        if not os.path.exists(o):
            sh(cmd + ["-c", src, "-o", o + ".tmp"])
            os.rename(o + ".tmp", o)
        os.utime(o)
        _prune(od, 60)
        sh(link + [o] + eng + [l, "-o", out + ".tmp", "-lpthread", "-ldl"])
        os.rename(out + ".tmp", out)
        _prune(d, 80)
        return out
    finally:
        lk.close()

# ---------------------------------------------------------------------------
# running a check
# ---------------------------------------------------------------------------
def known_findings():
    """Lines `property=<id> scenario=<name> match=<text in message> :: <what fails>`; `fixed:` lines suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"property=(\S+) scenario=(\S+) match=(.*?) :: (.*)$", l)
            if m: out.append(m.groups())
    return out

def run_driver(exe, args, timeout):
    os.makedirs(OUT, exist_ok=True)
    js = os.path.join(OUT, "result-%d.json" % os.getpid())
    if os.path.exists(js): os.unlink(js)
    scratch = tempfile.mkdtemp(prefix="verif-fs-", dir="/dev/shm")
    os.chmod(scratch, 0o755)
    env = dict(os.environ, VERIF_OUT=OUT, VERIF_SCRATCH=scratch)
    env.setdefault("ASAN_OPTIONS", "detect_leaks=1:abort_on_error=0:exitcode=77")
    try:
        r = subprocess.run([exe] + args + ["--json", js], timeout=timeout, env=env, cwd=VERIF)
    except subprocess.TimeoutExpired:
        raise CheckError("driver timed out: %s" % exe)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if not os.path.exists(js): raise CheckError("driver wrote no result (exit %d)" % r.returncode)
    try:
        with open(js) as f: res = json.load(f)
    except ValueError:
        raise CheckError("driver result unreadable (exit %d)" % r.returncode)
    finally:
        os.unlink(js)
    if r.returncode not in (0, 1): raise CheckError("driver failed with exit %d: %s" % (r.returncode, [x.get("message") for x in res if x.get("error")]))
    return res

def check(prop, spec):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    res = []
    limit = 850 if tier == "quick" else 11000
    for run in spec["runs"]:
        exe = driver(run["driver"], run["flavour"], run.get("cpp", False), run.get("extra", ()))
        res += run_driver(exe, ["--property", prop, "--tier", tier], max(60, limit - (time.time() - t0)))
    if not res: raise CheckError("nothing was run for " + prop)
    known = known_findings()
    viol, kn = [], []
    for r in res:
        if r.get("error"): raise CheckError("%s: %s" % (r["scenario"], r["message"]))
        if r["violated"]:
            hit = [k for k in known if k[0] == prop and k[1] in r["scenario"] and k[2] in r["message"]]
            (kn if hit else viol).append((r, hit))
    cov = {"exhaustive": True, "scenarios": len(res),
           "bounds": sorted({r["bounds"] for r in res if r.get("bounds")})[:40]}
    samples = []
    for r in res:
        for s in r.get("samples", [])[:2]:
            if len(samples) < 12: samples.append("%s: %s" % (r["scenario"], s))
    cov["samples"] = samples
    tot = lambda k: sum(int(r.get(k, 0)) for r in res)
    if spec["level"] == "model_checking":
        cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = tot("states"), tot("transitions"), tot("validated")
        if tot("executions"): cov["executions"] = tot("executions")
    else:
        cov["evaluations"], cov["distinct_nontrivial"], cov["rule"] = tot("executions"), tot("distinct"), spec["rule"]
        if tot("states"): cov["states"] = tot("states")
    for k in ("points", "outcomes", "crash_points", "faults"):
        if tot(k): cov[k] = tot(k)
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov, "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol) + len(kn)}
    p = os.path.join(EVID, prop + ".json")
    with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)
    for r, hit in kn: print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][3]))
    for r, _ in viol:
        print("%s: %s" % (r["scenario"], r["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, r.get("replay") or p))
    sys.stdout.flush()
    return 1 if viol else 0
