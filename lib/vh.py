"""Worker-side API of the monitors: every observation is counted, every violated oracle is recorded
together with what is needed to replay it."""
import os, sys, json, hashlib, time, traceback, zlib
import numpy as np

def _jsonable(o):
    if isinstance(o, np.ndarray): return o.tolist()
    if isinstance(o, (np.floating, np.integer, np.bool_)): return o.item()
    if isinstance(o, dict): return {str(k): _jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)): return [_jsonable(v) for v in o]
    if isinstance(o, (str, int, float, bool)) or o is None: return o
    return repr(o)[:200]

class Skip(Exception):
    """raised inside a case when the generated input is not in the domain of the property"""

class Case:
    def __init__(self, ctx, key, params, allow):
        self.ctx, self.key, self.params, self.allow = ctx, key, params, allow
    def __enter__(self):
        c = self.ctx
        c.current = self
        c.progress(self)
        return self
    def __exit__(self, et, ev, tb):
        c = self.ctx
        c.current = None
        if et is None:
            c.nontrivial(self)
            return False
        if issubclass(et, Skip):
            c.nskip += 1
            return True
        if issubclass(et, (KeyboardInterrupt, SystemExit)):
            return False
        if self.allow and issubclass(et, self.allow):
            c.nontrivial(self)
            return True
        # an exception on a legitimate input is a violation of the property being monitored
        last = traceback.extract_tb(tb)[-1]
        c.violation(self.key + ":exception:" + et.__name__, "%s: %s (at %s:%s)" %
            (et.__name__, str(ev)[:300], os.path.basename(last.filename), last.lineno), self.params)
        return True

class Ctx:
    def __init__(self, prop, group, seed, tier, out):
        self.prop, self.group, self.seed, self.tier = prop, group, seed, tier
        self.out = open(out, "a")
        self.curfile = out + ".cur"
        self.rng = np.random.default_rng([seed, zlib.crc32(group.encode())])
        self.neval = 0          # number of oracle evaluations
        self.hashes = set()     # distinct non-trivial cases
        self.ncase = 0
        self.nskip = 0
        self.viol = {}
        self.samples = {}
        self.current = None
        self.thorough = tier == "thorough"
        self.only = os.environ.get("VERIF_ONLY_CASE")
        self.maxrel = {}        # largest relative deviation seen per oracle, for the evidence
        self.events = {}
    def n(self, quick, thorough=None):
        """number of cases at the current tier"""
        return (thorough if thorough is not None else quick * 8) if self.thorough else quick
    def emit(self, **kw):
        self.out.write(json.dumps(_jsonable(kw)) + "\n")
        self.out.flush()
    def progress(self, case):
        self.ncase += 1
        with open(self.curfile, "w") as f:
            f.write(json.dumps(_jsonable(dict(key=case.key, params=case.params)))[:20000])
    def case(self, key, params=None, allow=()):
        return Case(self, key, params if params is not None else {}, allow)
    def nontrivial(self, case):
        h = hashlib.md5((case.key + json.dumps(_jsonable(case.params), sort_keys=True)).encode()).hexdigest()
        self.hashes.add(h)
        k = case.key.split(":")[0]
        if k not in self.samples and len(self.samples) < 6:
            self.samples[k] = dict(case=case.key, params=_jsonable(case.params))
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n
    def violation(self, key, msg, info=None):
        n = self.viol.get(key, 0)
        self.viol[key] = n + 1
        if n == 0:
            params = self.current.params if self.current else {}
            self.emit(t="viol", key=key, msg=msg, params=params, info=info)
    def ok(self, cond, key, msg="", info=None):
        """one oracle evaluation with a boolean outcome"""
        self.neval += 1
        if not cond:
            self.violation(key, msg, info)
        return bool(cond)
    def close(self, a, b, key, rtol=0., atol=0., info=None, equal_nan=False):
        """|a-b| <= atol + rtol*max(|a|,|b|), elementwise; atol may be an array"""
        a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
        if a.shape != b.shape:
            try:
                a, b = np.broadcast_arrays(a, b)
            except ValueError:
                self.neval += 1
                self.violation(key, "shape mismatch %s vs %s" % (a.shape, b.shape), info)
                return False
        tol = atol + rtol * np.maximum(np.abs(a), np.abs(b))
        with np.errstate(invalid="ignore"):
            dif = np.abs(a - b)
            good = (dif <= tol) | (a == b)
        if equal_nan:
            good |= np.isnan(a) & np.isnan(b)
        self.neval += max(1, a.size)
        with np.errstate(invalid="ignore", divide="ignore"):
            r = np.where(good & (tol > 0) & np.isfinite(dif), dif / tol, 0.)
        if r.size:
            m = float(np.max(r)); o = key.split(":")[0]
            if m > self.maxrel.get(o, -1): self.maxrel[o] = m
        if not np.all(good):
            i = int(np.argmax(~good.ravel()))
            self.violation(key, "%d of %d values differ; e.g. [%d]: %.15g vs %.15g, diff=%.3g tol=%.3g" % (
                int(np.sum(~good)), a.size, i, a.ravel()[i], b.ravel()[i], dif.ravel()[i],
                np.broadcast_to(tol, a.shape).ravel()[i]), info)
            return False
        return True
    def le(self, a, b, key, info=None):
        a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
        good = a <= b
        self.neval += max(1, np.size(good))
        if not np.all(good):
            aa, bb = np.broadcast_arrays(a, b)
            i = int(np.argmax(~np.ravel(good)))
            self.violation(key, "%d of %d values: [%d] %.15g is not <= %.15g" %
                (int(np.sum(~good)), np.size(good), i, aa.ravel()[i], bb.ravel()[i]), info)
            return False
        return True
    def raises(self, fn, key, exc=(Exception,), info=None):
        self.neval += 1
        try:
            r = fn()
        except exc:
            return True
        self.violation(key, "no error was reported; returned %s" % (repr(r)[:100]), info)
        return False
    def done(self):
        self.emit(t="done", neval=self.neval, hashes=sorted(self.hashes), ncase=self.ncase, nskip=self.nskip,
            viol=self.viol, samples=list(self.samples.values()), maxrel=self.maxrel, events=self.events)
        self.out.close()
