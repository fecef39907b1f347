#!/usr/bin/env python3
"""Content-addressed incremental build of /repo's library (as the repository's own CMake files glob it) and of one
property harness.  Never trusts time stamps: an object is reused only if the hash of its flags, its source and every
header it included last time is unchanged.   usage: build.py VARIANT [PROPERTY ...]   (or: build.py all)"""
import hashlib, json, os, subprocess, sys, concurrent.futures, re, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
COMMON = ["-std=c++17", "-DNDEBUG", "-fPIC", "-w", "-I" + REPO, "-I/usr/include"]
VARIANTS = {
    "plain": ("g++", ["-O2", "-march=x86-64-v2"], []),
    "asan": ("clang++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function,float-cast-overflow,float-divide-by-zero,pointer-overflow",
                         "-fno-sanitize-recover=all", "-march=x86-64-v2", "-fsanitize-ignorelist=" + os.path.join(VERIF, "tools", "ubsan_ignore.txt")], ["-fsanitize=address,undefined"]),
    "tsan": ("clang++", ["-O1", "-g1", "-fsanitize=thread", "-march=x86-64-v2"], ["-fsanitize=thread"]),
}
_hash = {}

def fhash(p):
    h = _hash.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash[p] = h
    return h

def sources():
    out = []
    for top in ("dal", "public/src"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            rel = os.path.relpath(d, REPO)
            if rel.startswith("dal/auto"):
                continue
            for f in fs:
                if f.endswith(".cpp") and not (rel == "dal/storage" and f.startswith("_repository")):
                    out.append(os.path.join(d, f))
    return sorted(out)

def compile_one(src, cxx, flags, odir):
    name = re.sub(r"[^A-Za-z0-9]+", "_", os.path.relpath(src, "/"))
    obj, meta, dep = (os.path.join(odir, name + e) for e in (".o", ".json", ".d"))
    fl = hashlib.sha1(" ".join([cxx] + flags).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["flags"] == fl and all(fhash(p) == h for p, h in m["deps"].items()):
                return obj, False, ""
        except Exception:
            pass
    for p in (obj, meta):
        if os.path.exists(p):
            os.unlink(p)
    r = subprocess.run([cxx] + flags + ["-MD", "-MF", dep, "-c", src, "-o", obj], capture_output=True, text=True)
    if r.returncode:
        return None, True, r.stderr[-4000:]
    txt = open(dep).read().replace("\\\n", " ")
    deps = [os.path.normpath(d) for d in txt.split(":", 1)[1].split()]
    deps = [d for d in deps if d.startswith(REPO + "/") or d.startswith(VERIF + "/")]
    json.dump({"flags": fl, "deps": {d: fhash(d) for d in deps}}, open(meta, "w"))
    os.unlink(dep)
    return obj, True, ""

def build(variant, props):
    cxx, flags, ld = VARIANTS[variant]
    flags = COMMON + flags
    odir = os.path.join(BUILD, variant)
    os.makedirs(odir, exist_ok=True)
    lock = open(os.path.join(odir, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    libsrc = sources()
    hflags = flags + ["-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "props")]
    if variant == "asan":   # do not instrument the harness side with UB checks
        pass
    jobs = [(s, flags) for s in libsrc] + [(os.path.join(VERIF, "engine", "engine.cpp"), hflags)]
    jobs += [(os.path.join(VERIF, "props", p + ".cpp"), hflags) for p in props]
    res, errs, n = {}, [], 0
    # big translation units first
    jobs.sort(key=lambda j: (0 if j[0].startswith(VERIF) else 1, 0 if re.search(r"script|simulation|public|model", j[0]) else 1))
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))) as ex:
        for (s, _), (obj, did, err) in zip(jobs, ex.map(lambda j: compile_one(j[0], cxx, j[1], odir), jobs)):
            n += did
            if obj is None:
                errs.append((s, err))
            res[s] = obj
    if errs:
        for s, e in errs:
            sys.stderr.write("COMPILE ERROR %s\n%s\n" % (s, e))
        return None
    lib = os.path.join(odir, "libdal_all.a")
    libkey = hashlib.sha1("".join(s + fhash(res[s]) for s in libsrc).encode()).hexdigest()
    keyf = lib + ".key"
    if not (os.path.exists(lib) and os.path.exists(keyf) and open(keyf).read() == libkey):
        if os.path.exists(lib):
            os.unlink(lib)
        subprocess.run(["ar", "crs", lib] + [res[s] for s in libsrc], check=True)
        open(keyf, "w").write(libkey)
    extra = []
    if not any(os.path.basename(s) == "sobol.cpp" for s in libsrc):
        nm = subprocess.run("grep -rlE 'NewSobol[[:space:]]*\\([^;]*\\)[[:space:]]*\\{' --include=*.cpp %s/dal" % REPO, shell=True, capture_output=True, text=True)
        if not nm.stdout.strip():
            extra = ["-Wl,--defsym=_ZN3Dal8NewSobolEimb=0"]
    def link(p):
        exe = os.path.join(odir, "prop_" + p)
        objs = [res[os.path.join(VERIF, "props", p + ".cpp")], res[os.path.join(VERIF, "engine", "engine.cpp")]]
        key = hashlib.sha1((libkey + "".join(fhash(o) for o in objs)).encode()).hexdigest()
        if os.path.exists(exe) and os.path.exists(exe + ".key") and open(exe + ".key").read() == key:
            return True
        r = subprocess.run([cxx] + ld + ["-o", exe] + objs + [lib, "-lpthread"] + extra, capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write("LINK ERROR %s\n%s\n" % (p, r.stderr[-4000:]))
            return False
        open(exe + ".key", "w").write(key)
        return True
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        ok = all(ex.map(link, props))
    sys.stderr.write("build: variant %s, %d compiled, %d properties\n" % (variant, n, len(props)))
    return odir if ok else None

def variants_of():
    return json.load(open(os.path.join(VERIF, "tools", "variants.json")))

if __name__ == "__main__":
    v = variants_of()
    if sys.argv[1] == "all":
        ok = True
        for var in sorted(set(v.values()), reverse=True):
            ok = build(var, sorted(p for p in v if v[p] == var)) is not None and ok
        sys.exit(0 if ok else 1)
    sys.exit(0 if build(sys.argv[1], sys.argv[2:]) else 1)
