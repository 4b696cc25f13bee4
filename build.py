#!/usr/bin/env python3
"""Builds the simulator against /repo's current tree, for both matrix backends.
Library: the repository's own CMake project (static library, extra flags only). Output: build/<key>/sim_<backend>."""
import hashlib, os, subprocess, sys, shutil, concurrent.futures as cf
V=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get("VERIF_REPO","/repo"); SRC=REPO+"/orocos_bfl"
INIT="-ftrivial-auto-var-init=pattern"
BASE="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address -fsanitize-address-use-after-scope"
COV="-fsanitize-coverage=trace-pc"
SHIM=f"-include {V}/sim/rng_shim.h"
WRAPS="malloc free calloc realloc posix_memalign pthread_mutex_lock __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort time clock gettimeofday clock_gettime rand random drand48 lrand48 getenv getpid _ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv _ZNSt13random_device9_M_getvalEv".split()
BACKENDS=("boost","eigen")
def key():
    h=hashlib.sha256()
    for root in (SRC,V+"/sim"):
        for d,ds,fs in os.walk(root):
            ds.sort()
            if "/tests" in d[len(root):] or "/docs" in d[len(root):] or "/examples" in d[len(root):]: continue
            for f in sorted(fs):
                p=os.path.join(d,f)
                if f.endswith((".h",".hpp",".cpp",".txt",".cmake",".in",".py")):
                    h.update(os.path.relpath(p,root).encode()); h.update(open(p,"rb").read())
    h.update(open(__file__,"rb").read()); return h.hexdigest()[:16]
def sh(cmd,log):
    with open(log,"a") as f:
        f.write("$ "+(cmd if isinstance(cmd,str) else " ".join(cmd))+"\n"); f.flush()
        return subprocess.run(cmd,shell=isinstance(cmd,str),stdout=f,stderr=subprocess.STDOUT).returncode
class BuildError(Exception): pass
def scen_files(): return sorted(f for f in os.listdir(V+"/sim") if f.startswith("sc_") and f.endswith(".cpp") and f!="sc_ginac.cpp")
def build(scen=None, backends=BACKENDS, cov=True, init=True, ginac=False):
    """scen: list of scenario files to link (None = all)."""
    scen=scen or scen_files(); k=key(); bd=f"{V}/build/{k}"; os.makedirs(bd,exist_ok=True)
    root=V+"/build"
    for d in os.listdir(root):
        if d!=k and os.path.isdir(root+"/"+d): shutil.rmtree(root+"/"+d,ignore_errors=True)
    bins={}
    C=(COV if cov else '')+(" "+INIT if init else ''); LIBF=f"{BASE} {C} {SHIM}"; sfx=('_cov' if cov else '')+('' if init else '_raw')+('_gin' if ginac else '')
    tag=hashlib.sha256((" ".join(scen)+sfx).encode()).hexdigest()[:8]
    todo=[b for b in backends if not os.path.exists(f"{bd}/sim_{b}_{tag}")]
    for b in backends: bins[b]=f"{bd}/sim_{b}_{tag}"
    if not todo: return bins
    log=f"{bd}/build.log"
    def conf(b):
        d=f"{bd}/{b}{sfx}"
        if os.path.exists(d+"/build.ninja"): return
        r=sh(["cmake","-S",SRC,"-B",d,"-G","Ninja",f"-DMATRIX_LIB={b}","-DGINAC_SUPPORT="+("ON" if ginac else "OFF"),"-DLIBRARY_TYPE=static","-DBUILD_TESTS=OFF","-DBUILD_EXAMPLES=OFF",
            "-DCMAKE_C_COMPILER=gcc","-DCMAKE_CXX_COMPILER=g++","-DCMAKE_BUILD_TYPE=RelWithDebInfo",f"-DCMAKE_CXX_FLAGS_RELWITHDEBINFO={LIBF}","-Wno-dev"],log)
        if r: raise BuildError("cmake configure failed for "+b)
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(conf,todo))
    inc={"boost":"","eigen":"-I/usr/include/eigen3"}
    nj=["rule cxx","  command = g++ $fl -MMD -MF $out.d -c $in -o $out","  depfile = $out.d","  deps = gcc","rule lib","  command = ninja -C $dir -j6 src/liborocos-bfl.a","rule link","  command = g++ -fsanitize=address $wr $in -o $out %s-lpthread"%("-lginac -lcln " if ginac else "")]
    outs=[]
    for b in todo:
        d=f"{bd}/{b}{sfx}"; objs=[]
        I=f"-I{SRC}/src -I{d}/src -I{d}/src/wrappers/matrix -I{d}/src/wrappers/rng -I{SRC}/src/wrappers/matrix -I{SRC}/src/wrappers/rng {inc[b]} -I{V}/sim -std=c++11 -w"
        for f in scen+["simcore.cpp"]:
            o=f"{d}/{f}.o"; fl=f"{BASE} {I}" + (" "+INIT if f=="simcore.cpp" else f" {C} {SHIM}")
            nj+=[f"build {o}: cxx {V}/sim/{f}",f"  fl = {fl}"]
            objs.append(o)
        wr=" ".join(f"-Wl,--wrap={w}" for w in WRAPS)
        nj+=[f"build {bins[b]}: link {' '.join(objs)} {d}/src/liborocos-bfl.a",f"  wr = {wr}"]; outs.append(bins[b])
    fn=f"{bd}/h_{tag}.ninja"; open(fn,"w").write("builddir = %s/h\n"%bd+"\n".join(nj)+"\n")
    objsall=[l.split(":")[0][6:] for l in nj if l.startswith("build ") and ".cpp.o:" in l]
    # library and harness objects in parallel, then link
    def lib(b): return sh(["ninja","-C",f"{bd}/{b}{sfx}","-j5","src/liborocos-bfl.a"],log)
    def har(_): return sh(["ninja","-f",fn,"-j6"]+objsall,log+".h")
    with cf.ThreadPoolExecutor(4) as ex:
        fs=[ex.submit(lib,b) for b in todo]+[ex.submit(har,0)]
        rc=[f.result() for f in fs]
    if any(rc): raise BuildError("compilation failed, see "+log+"\n"+open(log).read()[-3000:]+(open(log+".h").read()[-3000:] if os.path.exists(log+".h") else ""))
    if sh(["ninja","-f",fn]+outs,log+".h"): raise BuildError("link failed\n"+open(log+".h").read()[-3000:])
    return bins
if __name__=="__main__":
    import time; t=time.time()
    print(build(sys.argv[1:] or None,ginac="sc_ginac.cpp" in sys.argv)); print("%.1fs"%(time.time()-t))
