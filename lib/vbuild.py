#!/usr/bin/env python3
"""Content-addressed builder of instrumented variants of the library under test.

Everything is compiled from the *current working tree* of the repository ($VERIF_REPO, default
/repo); object files are cached in /verif/build (git-ignored) under a hash of the compiler flags and of
the comment-stripped text of the translation unit and of all headers it includes, so that an
unchanged file is never recompiled and a changed one always is.

Variants
  opt   -O1, libstdc++ assertions                       (behavioural monitors)
  san   -O1, AddressSanitizer + UBSan                   (memory-safety monitors)
  tsan  -O1, ThreadSanitizer; linked with our own instrumented OpenMP runtime (cpp/gomp_shim.cpp)
"""
import os, re, sys, hashlib, subprocess, shutil, fcntl, time, glob, sysconfig
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO  = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NJOBS = os.cpu_count() or 4

COMMON = ("-fPIC -std=c++11 -w -DHAVE_PYTHON -I/usr/include/python3.12 "
    "-I/usr/lib/python3/dist-packages/numpy/core/include -DHAVE_EIGEN -I/usr/include/eigen3 -DHAVE_GLPK").split()
VARIANTS = {
    "opt":  dict(cxx="g++", flags=["-O1", "-fopenmp", "-D_GLIBCXX_ASSERTIONS", "-DAGAMA_VERIF"], link=["-fopenmp"]),
    "san":  dict(cxx="g++", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fopenmp", "-D_GLIBCXX_ASSERTIONS", "-DAGAMA_VERIF",
                    "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
                 # the Eigen-based matrix file takes several times longer than anything else to compile:
                 # keep ASan there, drop UBSan
                 per_file={"math_linalg.cpp": ["-fno-sanitize=undefined"]},
                 link=["-fopenmp", "-fsanitize=address,undefined"]),
    "tsan": dict(cxx="g++", flags=["-O1", "-g1", "-fopenmp", "-DAGAMA_VERIF", "-fsanitize=thread"],
                 # single-threaded library code that never touches shared state and is slow to compile/run
                 per_file={},
                 link=["-fsanitize=thread"], shim="gomp_shim.cpp"),
}
LIBS = ["-lgsl", "-lgslcblas", "-lglpk", "-lpython3.12"]

class BuildError(Exception):
    pass

_strip_re = re.compile(r'''("(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*')|//[^\n]*|/\*.*?\*/''', re.S)
_cache_text = {}
def stripped(path):
    """text of a source file without comments and without indentation/blank lines
    (only used as a hash key; line numbers do not matter for anything we do)"""
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if key not in _cache_text:
        text = open(path, encoding="utf-8", errors="replace").read()
        text = _strip_re.sub(lambda m: m.group(1) or " ", text)
        _cache_text[key] = "\n".join(l.strip() for l in text.split("\n") if l.strip())
    return _cache_text[key]

_inc_re = re.compile(r'^\s*#\s*include\s*["<]([^">]+)[">]', re.M)
def deps(path, incdirs, seen=None):
    seen = {} if seen is None else seen
    rp = os.path.realpath(path)
    if rp in seen:
        return seen
    seen[rp] = None
    for inc in _inc_re.findall(open(rp, encoding="utf-8", errors="replace").read()):
        for d in [os.path.dirname(rp)] + incdirs:
            cand = os.path.join(d, inc)
            if os.path.isfile(cand):
                deps(cand, incdirs, seen)
                break
    return seen

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p.encode() if isinstance(p, str) else p)
        h.update(b"\0")
    return h.hexdigest()[:32]

_ver = {}
def cxxver(cxx):
    if cxx not in _ver:
        _ver[cxx] = subprocess.run([cxx, "--version"], capture_output=True, text=True).stdout.split("\n")[0]
    return _ver[cxx]

def sources(repo=REPO):
    """the list of C++ files that make up the library, from the project's own Makefile.list"""
    text = open(os.path.join(repo, "Makefile.list")).read().replace("\\\n", " ")
    out = []
    for var, sub in (("SOURCES", "src"), ("TORUSSRC", "src/torus")):
        m = re.search(r"^%s\s*=\s*(.*)$" % var, text, re.M)
        if not m:
            raise BuildError("no %s in Makefile.list" % var)
        for f in m.group(1).split():
            p = os.path.join(repo, "src", f)
            if not os.path.isfile(p):
                p = os.path.join(repo, sub, f)
            out.append(p)
    return out

def obj_key(path, variant, extra=()):
    v = VARIANTS[variant]
    incdirs = [os.path.join(REPO, "src")]
    d = deps(path, incdirs)
    flags = COMMON + v["flags"] + v.get("per_file", {}).get(os.path.basename(path), []) + list(extra)
    parts = [cxxver(v["cxx"]), " ".join(flags)]
    for p in sorted(d):
        parts += [os.path.basename(p), stripped(p)]
    return sha(*parts), flags

def compile_obj(path, variant, extra=()):
    key, flags = obj_key(path, variant, extra)
    odir = os.path.join(BUILD, variant, "obj")
    out = os.path.join(odir, "%s-%s.o" % (os.path.splitext(os.path.basename(path))[0], key))
    if not os.path.exists(out):
        os.makedirs(odir, exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        cmd = [VARIANTS[variant]["cxx"]] + flags + ["-I" + os.path.join(REPO, "src"), "-c", path, "-o", tmp]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("cannot compile %s (%s): %s" % (path, variant, r.stderr[-3000:]))
        os.replace(tmp, out)
        return out, True
    return out, False

# long compile jobs first
_prio = {"math_linalg.cpp": 0, "math_fit.cpp": 1, "interface_python.cpp": 2, "math_spline.cpp": 3}

class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def objects(variant, skip=()):
    srcs = [s for s in sources() if os.path.basename(s) not in skip]
    srcs.sort(key=lambda s: (_prio.get(os.path.basename(s), 9), -os.path.getsize(s)))
    with ThreadPoolExecutor(NJOBS) as ex:
        res = list(ex.map(lambda s: compile_obj(s, variant), srcs))
    return sorted(r[0] for r in res), sum(r[1] for r in res)

def shim_obj(variant):
    shim = VARIANTS[variant].get("shim")
    return [compile_obj(os.path.join(VERIF, "cpp", shim), variant, ("-fno-openmp", "-pthread"))[0]] if shim else []

def pymodule(variant):
    """build agama.so and assemble an importable package; return the directory for PYTHONPATH"""
    with Lock():
        objs, nnew = objects(variant)
        objs = objs + shim_obj(variant)
        v = VARIANTS[variant]
        key = sha(cxxver(v["cxx"]), " ".join(v["link"] + LIBS), *objs)
        d = os.path.join(BUILD, variant, "py")
        so = os.path.join(d, "agama-%s.so" % key)
        os.makedirs(d, exist_ok=True)
        if not os.path.exists(so):
            for old in glob.glob(os.path.join(d, "agama-*.so")):
                if time.time() - os.path.getmtime(old) > 3600:
                    os.unlink(old)
            tmp = so + ".tmp"
            # no -z defs: sanitizer runtimes are resolved at load time
            cmd = [v["cxx"], "-shared", "-o", tmp] + objs + v["link"] + LIBS
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError("cannot link agama.so (%s): %s" % (variant, r.stderr[-3000:]))
            os.replace(tmp, so)
        # Python part of the package: a fresh copy of the current tree
        pyfiles = [os.path.join(REPO, "__init__.py")] + sorted(glob.glob(os.path.join(REPO, "py", "*.py")))
        pkey = sha(key, *[os.path.basename(f) + "\n" + open(f, encoding="utf-8", errors="replace").read() for f in pyfiles])
        pkg = os.path.join(d, "pkg-" + pkey)
        if not os.path.exists(pkg):
            for old in glob.glob(os.path.join(d, "pkg-*")):
                if time.time() - os.path.getmtime(old) > 3600:
                    shutil.rmtree(old, ignore_errors=True)
            tmp = pkg + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(os.path.join(tmp, "agama", "py"))
            shutil.copy(pyfiles[0], os.path.join(tmp, "agama", "__init__.py"))
            for f in pyfiles[1:]:
                shutil.copy(f, os.path.join(tmp, "agama", "py", os.path.basename(f)))
            os.symlink(so, os.path.join(tmp, "agama", "agama.so"))
            os.replace(tmp, pkg)
        return pkg, nnew

def cppharness(variant, name, defines=()):
    """build a C++ harness /verif/cpp/<name>.cpp linked with the instrumented library objects"""
    with Lock():
        objs, nnew = objects(variant, skip=())
        objs = objs + shim_obj(variant)
        v = VARIANTS[variant]
        src = os.path.join(VERIF, "cpp", name + ".cpp")
        h, new = compile_obj(src, variant, tuple(defines) + (("-std=c++14",) if name == "c14_num" else ()))
        key = sha(cxxver(v["cxx"]), " ".join(v["link"] + LIBS), h, *objs)
        d = os.path.join(BUILD, variant, "exe")
        os.makedirs(d, exist_ok=True)
        exe = os.path.join(d, "%s-%s" % (name, key))
        if not os.path.exists(exe):
            for old in glob.glob(os.path.join(d, name + "-*")):
                if time.time() - os.path.getmtime(old) > 3600:
                    os.unlink(old)
            tmp = exe + ".tmp"
            r = subprocess.run([v["cxx"], "-o", tmp, h] + objs + v["link"] + LIBS + ["-lpthread"], capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError("cannot link %s (%s): %s" % (name, variant, r.stderr[-3000:]))
            os.replace(tmp, exe)
        return exe, nnew

if __name__ == "__main__":
    t = time.time()
    for a in sys.argv[1:] or ["opt"]:
        if ":" in a:
            print(cppharness(*a.split(":")))
        else:
            print(pymodule(a))
        print("%.1f s" % (time.time() - t))
