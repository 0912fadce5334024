"""setup_cmd: builds the instrumented variants and all C++ harnesses used by the checks (cached in build/)"""
import os, sys, time, importlib.util
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
V = vbuild.VERIF
os.environ["VERIF_META_ONLY"] = "1"
sys.path.insert(0, os.path.join(V, "checks"))
t = time.time()
py, cpp = set(), set()
for f in sorted(os.listdir(os.path.join(V, "checks"))):
    if f.startswith("C") and f.endswith(".py"):
        spec = importlib.util.spec_from_file_location(f[:-3] + "_m", os.path.join(V, "checks", f))
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for g in m.GROUPS.values():
            v = g.get("variant", "opt")
            if "fn" in g: py.add(v)
            else: cpp.add((v, g["cpp"]))
for v in sorted(py): print(v, vbuild.pymodule(v)[0], "%.0f s" % (time.time() - t), flush=True)
for v, n in sorted(cpp): print(v, n, vbuild.cppharness(v, n)[0], "%.0f s" % (time.time() - t), flush=True)
