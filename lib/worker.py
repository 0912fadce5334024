"""Runs one group of monitored workloads: worker.py <check module> <group> <seed> <tier> <out>"""
import signal
signal.signal(signal.SIGINT, signal.default_int_handler); signal.pthread_sigmask(signal.SIG_UNBLOCK, [signal.SIGINT])   # may be inherited as ignored from a background shell
import sys, os, importlib.util, traceback, faulthandler
faulthandler.enable()
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.path.join(os.path.dirname(here), "checks"))
import vh
mod, group, seed, tier, out = sys.argv[1:6]
sys.dont_write_bytecode = True
m = importlib.import_module(mod)
ctx = vh.Ctx(mod, group, int(seed), tier, out)
try:
    m.GROUPS[group]["fn"](ctx)
except Exception as e:
    # outside of any case: the harness itself could not proceed (constructor of a fixture threw etc.);
    # reported as a violation, since on a conforming library no fixture fails
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if "/checks/" in f.filename]
    ctx.violation("fixture:%s:%s" % (group, type(e).__name__), "%s: %s at line %s" %
        (type(e).__name__, str(e)[:300], [f.lineno for f in fr]), {})
    traceback.print_exc()
ctx.done()
sys.stdout.flush()
os._exit(0) if os.environ.get("VERIF_FAST_EXIT") else None
