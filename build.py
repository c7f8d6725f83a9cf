#!/usr/bin/env python3
"""Build the simulator + harness against /repo's working tree.  Content-addressed: an object is reused only if
its source, every header it could see and its flags are byte-identical.  Output: /verif/build/simknor."""
import os, sys, glob, hashlib, subprocess, re, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KNOR_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
CXX = "g++"
# build variants of the code under test: what the Makefiles' switches and the language bindings compile
VARIANTS = {"default": ([], True), "release": (["-DNDEBUG"], True), "nonuma": ([], False), "bind": (["-DBIND", "-DNDEBUG"], True)}
VARIANT = sys.argv[1] if len(sys.argv) > 1 else "default"
if VARIANT == "all":
    for v in VARIANTS:
        rc = subprocess.call([sys.executable, os.path.abspath(__file__), v])
        if rc: sys.exit(rc)
    sys.exit(0)
VFLAGS, NUMA = VARIANTS[VARIANT]
if VARIANT != "default": OUT = OUT + "/" + VARIANT
DIRS = ["libkcommon", "libman", "libauto", "libdist"]
COMMON = ["-g1", "-w", "-fno-omit-frame-pointer", "-fcf-protection=none", "-fno-stack-protector", "-U_FORTIFY_SOURCE"]
INC = ["-I", V + "/sim/include", "-I", V + "/sim", "-I", REPO] + sum([["-I", REPO + "/" + d] for d in DIRS + ["binding"]], [])
RT = ["-std=c++17", "-O2"] + COMMON + ["-I", V + "/sim/include", "-I", V + "/sim"]
CODE = ["-std=c++11", "-O1", "-fPIC", "-fopenmp", "-DSTATISTICS", "-DKNOR_SIM", "-fsanitize=thread"] + VFLAGS + COMMON + INC
NUMAF = ["-DUSE_NUMA"] if NUMA else []
HARN = ["-std=c++17", "-O1", "-fopenmp", "-DSTATISTICS", "-DKNOR_SIM", "-DVARIANT=\"%s\"" % VARIANT, "-fsanitize=thread"] + NUMAF + VFLAGS + COMMON + INC

def rd(p):
    with open(p, "rb") as f: return f.read()
def digest(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]
def tree(pats):
    h = hashlib.sha256()
    for pat in pats:
        for p in sorted(glob.glob(pat, recursive=True)):
            if os.path.isfile(p): h.update(p.encode() + b"\0" + rd(p) + b"\0")
    return h.hexdigest()

def main():
    os.makedirs(OUT + "/obj", exist_ok=True)
    repo_h = tree([REPO + "/%s/**/*.%s" % (d, e) for d in DIRS + ["binding"] for e in ("hpp", "h")])
    sim_h = tree([V + "/sim/*.hpp", V + "/sim/include/*.h"])
    har_h = tree([V + "/harness/*.hpp"])
    jobs = []   # (src, flags, key)
    for s in sorted(glob.glob(V + "/sim/*.cpp")): jobs.append((s, RT, digest(rd(s), sim_h, " ".join(RT))))
    for d in DIRS:
        for s in sorted(glob.glob(REPO + "/" + d + "/*.cpp")):
            fl = [f for f in CODE if d != "libdist" or f != "-DBIND"] + ([] if d == "libdist" else NUMAF)
            jobs.append((s, fl, digest(rd(s), repo_h, sim_h, " ".join(fl))))
    for s in sorted(glob.glob(REPO + "/exec/*.cpp")):
        m = os.path.basename(s)[:-4]
        if m == "gmm": continue          # the mixture engine is unfinished (see DESIGN.md)
        fl = [f for f in CODE if m != "knord" or f != "-DBIND"] + ([] if m == "knord" else NUMAF) + ["-Dmain=%s_main" % m, "-DkmeansPP=kmeansPP_of_%s" % m, "-include", V + "/sim/include/sim_getopt.h"]
        jobs.append((s, fl, digest(rd(s), repo_h, sim_h, " ".join(fl))))
    for s in sorted(glob.glob(V + "/harness/*.cpp")): jobs.append((s, HARN, digest(rd(s), repo_h, sim_h, har_h, " ".join(HARN))))
    objs, todo = [], []
    for s, fl, key in jobs:
        o = "%s/obj/%s-%s.o" % (OUT, os.path.basename(s)[:-4], key)
        objs.append(o)
        if not os.path.exists(o): todo.append((s, fl, o))
    def cc(t):
        s, fl, o = t
        tmp = o + ".%d.tmp" % os.getpid()
        p = subprocess.run([CXX] + fl + ["-c", s, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode == 0: os.rename(tmp, o)
        return s, p.returncode, p.stdout.decode(errors="replace")
    bad = False
    todo.sort(key=lambda t: -os.path.getsize(t[0]))
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for s, rc, out in ex.map(cc, todo):
            if rc: bad = True; sys.stderr.write("compilation failed: %s\n%s\n" % (s, out[:4000]))
    if bad: return 2
    wraps = set()
    for s in glob.glob(V + "/sim/*.cpp"):
        wraps |= set(re.findall(r"\b__wrap_([A-Za-z0-9_]+)", rd(s).decode()))
    exe = OUT + "/simknor"
    key = digest("\n".join(objs), " ".join(sorted(wraps)))
    if os.path.exists(exe) and os.path.exists(exe + ".key") and rd(exe + ".key").decode() == key: print(key); return 0
    tmp = exe + ".%d.tmp" % os.getpid()
    wl = ["-Wl," + ",".join("--wrap=" + w for w in sorted(wraps))]
    p = subprocess.run([CXX, "-no-pie", "-static-libstdc++", "-static-libgcc", "-o", tmp] + objs + wl + ["-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: sys.stderr.write("link failed\n" + p.stdout.decode(errors="replace")[:6000]); return 2
    os.rename(tmp, exe)
    with open(exe + ".key", "w") as f: f.write(key)
    keep = set(objs)
    for o in glob.glob(OUT + "/obj/*.o"):
        if o not in keep: os.unlink(o)
    print(key)
    return 0
if __name__ == "__main__": sys.exit(main())
