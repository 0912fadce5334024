import os, tempfile, shutil, numpy as np
from common import *
RULE = ("random base models x modifiers (centre, orientation, rotation, scale; constant, linear table, natural table, Hermite table with derivatives; given as list, array, string or file) x time x points; "
  "random composites x grouping x order x way of construction; evolving potentials x interpolation mode x time; a case is one constructed modified or composite model compared with the base model in transformed coordinates")
ASSUMPTIONS = ["base models are judged by C02-C05; splines between the nodes of a table without derivatives are judged by C13 (here at the nodes, for linear tables everywhere, and against the Spline class in between)"]
TMP = None
def tmpf(name):
    global TMP
    if TMP is None:
        import atexit
        TMP = tempfile.mkdtemp(prefix="c06_"); atexit.register(shutil.rmtree, TMP, True)
    return os.path.join(TMP, name)
class Table:
    """time-dependent K-vector with an independently known value"""
    def __init__(self, rng, K, amp, pos=False, kind=None, T=1.):
        self.K = K; self.kind = kind or ["const", "linear", "hermite", "natural", "single"][rng.integers(5)]; f = (lambda n: amp*np.exp(rng.uniform(-.5, .5, n))) if pos else (lambda n: amp*rng.normal(size=n))
        if self.kind in ("const", "single"): self.v = f(K); self.t = np.array([rng.normal()]); self.data = self.v if self.kind == "const" else np.concatenate((self.t, self.v))[None]
        else:
            n = 2 if self.kind == "linear" and rng.random() < .5 else int(rng.integers(3, 7)); self.t = T*np.cumsum(rng.uniform(.3, 1.5, n)); self.t -= self.t[0]+self.t[-1]*rng.random(); self.T = self.t[-1]-self.t[0]
            if self.kind == "linear": a = f(K); b = f(K); self.a, self.b = a, (b-a)/self.T; V = a+(self.t-self.t[0])[:, None]*self.b; self.data = np.column_stack((self.t, V))
            elif self.kind == "hermite":
                self.c = [np.array([f(1)[0], amp*.2*rng.normal()/self.T, amp*.2*rng.normal()/self.T**2, amp*.2*rng.normal()/self.T**3]) for k in range(K)]; u = self.t-self.t[0]
                V = np.column_stack([np.polyval(c[::-1], u) for c in self.c]); D = np.column_stack([np.polyval((c[1:]*[1, 2, 3])[::-1], u) for c in self.c]); self.data = np.column_stack((self.t, V, D)); self.V, self.D = V, D
            else:
                V = np.array([f(K) for _ in self.t]); self.data = np.column_stack((self.t, V)); self.sp = [agama.Spline(self.t, V[:, k], reg=True) for k in range(K)]
    def __call__(self, t):
        if self.kind in ("const", "single"): return self.v
        if self.kind == "linear": return self.a+(t-self.t[0])*self.b
        if self.kind == "hermite":
            if t <= self.t[0]: return self.V[0]+(t-self.t[0])*self.D[0]
            if t >= self.t[-1]: return self.V[-1]+(t-self.t[-1])*self.D[-1]
            return np.array([np.polyval(c[::-1], t-self.t[0]) for c in self.c])
        tt = min(max(t, self.t[0]), self.t[-1]); return np.array([s(tt)+(t-tt)*s(tt, der=1) for s in self.sp])
    def arg(self, rng):
        """one of the ways of passing it"""
        d = np.asarray(self.data); w = rng.integers(5 if d.ndim == 2 else 4)
        if d.ndim == 1 and self.K == 1 and w == 0: return float(d[0])
        if w == 0: return d.tolist()
        if w == 1: return np.array(d)
        if w == 2: return repr(d.tolist())
        if w == 3: return ("[%s]" if rng.random() < .5 else "%s") % ", ".join("%.17g" % v for v in d) if d.ndim == 1 else "[" + ",".join("[" + " ".join("%.17g" % v for v in r) + "]" for r in d) + "]"
        f = tmpf("t%d.txt" % rng.integers(1 << 40)); s = "".join(("# a comment line\n" if rng.random() < .2 else "") + ["\t", " ", ", "][rng.integers(3)].join("%.17g" % v for v in r) + "\n" for r in d)
        if rng.random() < .5: s = s[:-1]    # no newline at the end of the last line
        open(f, "w").write("# t x y z\n"+s); return f
def mods(rng, L, T=1., kinds=None, td=True):
    m = {}; names = kinds or [k for k in ("scale", "rotation", "orientation", "center") if rng.random() < .55] or ["center"]
    for k in names:
        kd = None if td else "const"
        if k == "center": m[k] = Table(rng, 3, L, kind=kd, T=T)
        elif k == "orientation": m[k] = rng.uniform([-4, 0, -4], [4, 3.1, 4])
        elif k == "rotation": m[k] = Table(rng, 1, 2., kind=kd, T=T)
        elif k == "scale":
            m[k] = Table(rng, 2, 1., pos=True, kind=kd, T=T)
    return m
def modargs(rng, m):
    a = {}
    for k, v in m.items():
        if k == "orientation": a[k] = [lambda: v.tolist(), lambda: np.array(v), lambda: tuple(v), lambda: ",".join("%.17g" % w for w in v), lambda: "(%s)" % " ".join("%.17g" % w for w in v)][rng.integers(5)]()
        else: a[k] = v.arg(rng)
    return a
def Hmat(d): return np.stack([d[:, [0, 3, 5]], d[:, [3, 1, 4]], d[:, [5, 4, 2]]], 1)
def Hvec(H): return np.column_stack((H[:, 0, 0], H[:, 1, 1], H[:, 2, 2], H[:, 0, 1], H[:, 1, 2], H[:, 0, 2]))
class Mod:
    """reference implementation of a modified model: applied to functions (x,t) -> phi, acc, hess, rho"""
    def __init__(self, f, m): self.f, self.m = f, m
    def __call__(self, x, t):
        m = self.m; R = np.eye(3); c = 0; A = S = 1.
        if "rotation" in m: R = rotmat(m["rotation"](t)[0], 0, 0)
        if "orientation" in m: R = R @ rotmat(*m["orientation"])
        if "center" in m: c = m["center"](t)
        if "scale" in m: A, S = m["scale"](t)
        if S < .05: raise Skip
        X = (x-c) @ R.T / S
        p, a, h, r = self.f(X, t)
        return p*A/S, a @ R*A/S**2, Hvec(np.einsum("ji,njk,kl->nil", R, Hmat(h), R))*A/S**3, r*A/S**3
if not os.environ.get("VERIF_META_ONLY"):
    from vh import Skip
def basefn(pot):
    def f(X, t): p, a, d = pot.eval(X, pot=True, acc=True, der=True, t=t); return p, a, d, pot.density(X, t=t)
    return f
def cmpall(c, pot, ref, x, t, key, tol=1e-9, soft=None):
    p, a, h, r = ref(x, t); L = np.sqrt((x**2).sum(1)); sc = soft if soft is not None else 0
    fa = np.linalg.norm(a, axis=1)[:, None]; hh = abs(h).max(1)[:, None]
    P, A, H = pot.eval(x, pot=True, acc=True, der=True, t=t)
    c.close(P, p, key+":phi", tol, 1e-12*np.abs(p).max()); c.close(A, a, key+":acc", 0, 10*tol*fa+1e-12*fa.max()); c.close(H, h, key+":der", 0, 1000*tol*hh+1e-11*hh.max())
    c.close(pot.potential(x, t=t), p, key+":phi1", tol, 1e-12*np.abs(p).max()); c.close(pot.force(x, t=t), a, key+":acc1", 0, 10*tol*fa+1e-12*fa.max())
    f2, d2 = pot.forceDeriv(x, t=t); c.close(f2, a, key+":acc2", 0, 10*tol*fa+1e-12*fa.max()); c.close(d2, h, key+":der2", 0, 1000*tol*hh+1e-11*hh.max())
    d3 = pot.eval(x, der=True, t=t); c.close(d3, h, key+":der3", 0, 1000*tol*hh+1e-11*hh.max()); p4, d4 = pot.eval(x, pot=True, der=True, t=t); c.close(d4, h, key+":der4", 0, 1000*tol*hh+1e-11*hh.max()); c.close(p4, p, key+":phi4", tol, 1e-12*np.abs(p).max())
    c.close(pot.density(x, t=t), r, key+":rho", 1e4*tol, 1e4*tol*hh[:, 0])
SAFE = ["Plummer", "Isochrone", "NFW", "MiyamotoNagai", "Dehnen", "Logarithmic", "Multipole", "MultipoleTriax", "BlobsComposite", "Composite", "PerfectEllipsoid"]
def base(rng, k=None):
    m = randmodel(rng, k or SAFE[rng.integers(len(SAFE))]); return m
def times(rng, m):
    ts = [0.]
    for v in m.values():
        if isinstance(v, Table) and v.kind not in ("const", "single"): ts += list(v.t[[0, -1]]) + [v.t[0]-rng.random()*v.T, v.t[-1]+rng.random()*v.T*.3] + list(rng.uniform(v.t[0], v.t[-1], 3)) + [v.t[1]]
    return [ts[i] for i in rng.permutation(len(ts))[:7]]
def modifiers(c):
    rng = c.rng
    for i in range(c.n(1500)):
        b = base(rng); m = mods(rng, b.L, T=logu(rng, .1, 10)); args = modargs(rng, m); params = dict(base=b.spec, mods=args)
        with c.case("mod:"+"+".join(m), params):
            pot = agama.Potential(potential=b.obj, **args); ref = Mod(basefn(b.obj), m)
            for t in times(rng, m):
                x = points(rng, 25, .1*b.L, 20*b.L, .2)
                try: cmpall(c, pot, ref, x, t, "mod")
                except Skip: c.event("scale-out-of-range"); continue
                c.event("times")
            # batch with an array of times equals point by point
            x = points(rng, 12, .1*b.L, 10*b.L); tt = rng.normal(size=12)*1.5
            P = pot.potential(x, t=tt); F = pot.force(x, t=tt); D = pot.density(x, t=tt)
            c.close(P, [pot.potential(x[k], t=tt[k]) for k in range(12)], "timearray", 1e-14); c.close(F, [pot.force(x[k], t=tt[k]) for k in range(12)], "timearray", 1e-14, 1e-14*abs(F).max()); c.close(D, [pot.density(x[k], t=tt[k]) for k in range(12)], "timearray", 1e-12, equal_nan=True)
            # passing the modifiers at construction of the base model is the same
            if isinstance(b.spec, dict) and b.kind in ("Plummer", "Isochrone", "NFW", "MiyamotoNagai", "Dehnen", "Logarithmic", "Ferrers", "PerfectEllipsoid"):
                p2 = agama.Potential(**b.spec, **args); t = float(rng.normal()); c.close(p2.potential(x, t=t), pot.potential(x, t=t), "inline", 1e-13); c.close(p2.density(x, t=t), pot.density(x, t=t), "inline", 1e-10)
            # total mass
            if not b.infmass:
                M0 = b.obj.totalMass(); c.close(pot.totalMass(), M0*(m["scale"](0)[0] if "scale" in m else 1), "totalMass", 3e-3)
            # projection along the line of sight at a given time: independent quadrature is C03; here: scaled/shifted consistency
    for i in range(c.n(40)):     # layering in an arbitrary order
        b = base(rng, ["Plummer", "MiyamotoNagai", "MultipoleTriax", "Dehnen", "PerfectEllipsoid", "Logarithmic"][i % 6]); lay = [mods(rng, b.L) for _ in range(rng.integers(2, 4))]; la = [modargs(rng, m) for m in lay]
        with c.case("layers", dict(base=b.spec, layers=la)):
            pot, ref = b.obj, basefn(b.obj)
            for m, a in zip(lay, la): pot = agama.Potential(potential=pot, **a); ref = Mod(ref, m)
            for t in times(rng, lay[0])[:3]:
                try: cmpall(c, pot, ref, points(rng, 15, .1*b.L, 20*b.L, .1), t, "layers")
                except Skip: continue
def densities(c):
    rng = c.rng
    for i in range(c.n(600)):
        L, M = logu(rng, .1, 10), logu(rng, .1, 10); kind = ["Spheroid", "Dehnen", "Disk", "Plummer", "Sersic", "DensitySphericalHarmonic", "Nuker"][i % 7]
        s = dict(type=kind, mass=M, scaleRadius=L); 
        if kind in ("Spheroid", "Nuker"): s.update(axisRatioY=.8, axisRatioZ=.6, gamma=1, beta=4.5)
        if kind == "Disk": s.update(scaleHeight=.2*L)
        if kind == "DensitySphericalHarmonic": d = agama.Density(type=kind, density=agama.Density(type="Spheroid", mass=M, scaleRadius=L, axisRatioY=.8, axisRatioZ=.6, gamma=1, beta=5.), lmax=6)
        else: d = agama.Density(**s)
        m = mods(rng, L); args = modargs(rng, m)
        with c.case("dens:"+kind, dict(s=s, mods=args)):
            dm = agama.Density(density=d, **args); d2 = agama.Density(**s, **args) if kind != "DensitySphericalHarmonic" else dm; ref = Mod(lambda X, t: (np.zeros(len(X)), np.zeros((len(X), 3)), np.zeros((len(X), 6)), d.density(X)), m)
            for t in times(rng, m)[:4]:
                x = points(rng, 30, .1*L, 10*L, .1)
                try: r = ref(x, t)[3]
                except Skip: continue
                c.close(dm.density(x, t=t), r, "dens:"+kind, 1e-7, 1e-12*r.max()); c.close(d2.density(x, t=t), r, "dens:"+kind, 1e-7, 1e-12*r.max())
            A = m["scale"](0)[0] if "scale" in m else 1; c.close(dm.totalMass(), A*d.totalMass(), "densmass:"+kind, 2e-2 if kind == "Disk" else 3e-3)
            if set(m) <= {"scale", "orientation", "rotation"}:
                S = m["scale"](0)[1] if "scale" in m else 1
                if S > .05: rr = L*np.array([.3, 1, 3.]); c.close(dm.enclosedMass(rr), A*d.enclosedMass(rr/S), "densenc:"+kind, 2e-2 if kind == "Disk" else 3e-3)
            # a density with a modified potential as source and vice versa
            # unchanged base object
            c.close(d.density(x), (dm if not m else d).density(x), "base", 0)
def composites(c):
    rng = c.rng
    for i in range(c.n(300)):
        n = int(rng.integers(2, 6)); ms = []; L = logu(rng, .1, 10)
        for k in range(n):
            b = randmodel(rng, ["Plummer", "Isochrone", "NFW", "MiyamotoNagai", "Dehnen", "Logarithmic", "PerfectEllipsoid"][rng.integers(7)], L*logu(rng, .3, 3)); m = mods(rng, L) if rng.random() < .5 else {}
            if ms and rng.random() < .3: m = ms[rng.integers(len(ms))][1]      # shared modifiers
            ms.append((b, m))
        argsets = []; same = {}
        for b, m in ms:
            k = id(m)
            if k not in same: same[k] = modargs(rng, m)
            argsets.append(same[k])
        with c.case("composite", [dict(b=b.spec, m=a) for (b, m), a in zip(ms, argsets)]):
            refs = [Mod(basefn(b.obj), m) for b, m in ms]
            objs = [agama.Potential(potential=b.obj, **a) if a else b.obj for (b, m), a in zip(ms, argsets)]
            def ref(x, t):
                R = [f(x, t) for f in refs]; return tuple(sum(r[k] for r in R) for k in range(4))
            perm = rng.permutation(n); j = int(rng.integers(1, n))
            pots = dict(objects=agama.Potential(*objs), dicts=agama.Potential(*[dict(b.spec, **a) for (b, m), a in zip(ms, argsets)]), permuted=agama.Potential(*[objs[k] for k in perm]),
                nested=agama.Potential(agama.Potential(*objs[:j]), agama.Potential(*objs[j:])) if n > 2 else agama.Potential(objs[0], objs[1]))
            f = tmpf("c%d.ini" % rng.integers(1 << 40)); simple = all(not isinstance(v, (np.ndarray, list, tuple)) for a in argsets for v in a.values())
            with open(f, "w") as o:
                for k, ((b, m), a) in enumerate(zip(ms, argsets)):
                    o.write("[Potential%s]\n" % ["", " comp %d" % k, "%d" % k][rng.integers(1, 3)]); kv = dict(b.spec, **a)
                    for q in [list(kv)[z] for z in rng.permutation(len(kv))]:
                        v = kv[q]; v = repr(np.asarray(v).tolist()) if isinstance(v, (np.ndarray, list, tuple)) else repr(float(v)) if isinstance(v, (float, np.floating)) else str(v); o.write(["%s=%s\n", "%s = %s\n", "  %s =\t%s  \n"][rng.integers(3)] % (q.upper() if rng.random() < .2 else q, v))
                    o.write("\n")
            pots["file"] = agama.Potential(f)
            for t in ([0.]+[float(v) for v in rng.normal(size=2)]):
                x = points(rng, 15, .1*L, 20*L, .1)
                for w, p in pots.items():
                    try: cmpall(c, p, ref, x, t, "composite-"+w)
                    except Skip: break
            p = pots["objects"]; c.ok(len(p) == n, "composite-len", "%d vs %d" % (len(p), n)); c.close(sum(q.potential(x, t=t) for q in p), p.potential(x, t=t), "composite-iter", 1e-12)
            for k in range(n): c.close(p[k].potential(x, t=.3), objs[k].potential(x, t=.3), "composite-item", 1e-13)
            if not any(b.infmass for b, m in ms): c.close(p.totalMass(), sum(o.totalMass() for o in objs), "composite-mass", 1e-10)
            # a base object keeps its values after being used in composites
            pm = agama.Potential(potential=p, center=[L, 2*L, -L]); c.close(pm.potential(x+np.array([1, 2, -1])*L, t=.3), p.potential(x, t=.3), "composite-mod", 1e-9)
    for i in range(c.n(30)):    # densities
        n = int(rng.integers(2, 5)); L = logu(rng, .1, 10); sp = []
        for k in range(n):
            a = dict(type=["Plummer", "Spheroid", "Disk", "Dehnen"][rng.integers(4)], mass=logu(rng, .3, 3), scaleRadius=L*logu(rng, .5, 2))
            if a["type"] == "Disk": a["scaleHeight"] = .3*L
            if a["type"] == "Spheroid": a.update(gamma=.5, beta=4.5, axisRatioZ=.7)
            sp.append((a, {k_: v for k_, v in mods(rng, L, td=True).items()} if rng.random() < .5 else {}))
        ar = [modargs(rng, m) for a, m in sp]
        with c.case("dcomposite", [dict(a, **b) for (a, m), b in zip(sp, ar)]):
            x = points(rng, 20, .1*L, 10*L); bases = [agama.Density(**a) for a, m in sp]; objs = [agama.Density(**a, **b) for (a, m), b in zip(sp, ar)]; t = float(rng.normal())
            try: ref = sum(Mod(lambda X, t, d=d: (np.zeros(len(X)), np.zeros((len(X), 3)), np.zeros((len(X), 6)), d.density(X)), m)(x, t)[3] for d, (a, m) in zip(bases, sp))
            except Skip: continue
            f = tmpf("d%d.ini" % rng.integers(1 << 40))
            with open(f, "w") as o:
                for k, ((a, m), b) in enumerate(zip(sp, ar)):
                    o.write("[Density %d]\n" % k)
                    for q, v in dict(a, **b).items(): o.write("%s=%s\n" % (q, repr(np.asarray(v).tolist()) if isinstance(v, (np.ndarray, list, tuple)) else v))
            for w, d in dict(objects=agama.Density(*objs), dicts=agama.Density(*[dict(a, **b) for (a, m), b in zip(sp, ar)]), file=agama.Density(f)).items():
                c.close(d.density(x, t=t), ref, "dcomposite-"+w, 1e-7, 1e-12*ref.max())
                if not any("scale" in m for a, m in sp): c.close(d.totalMass(), sum(a["mass"] for a, m in sp), "dcomposite-mass", 2e-2)
def symmetry(c):
    """the symmetry of modified and composite models as seen by routines that rely on it: an expansion inheriting its symmetry must not lose terms, solvers for axisymmetric models must refuse or symmetrise"""
    rng = c.rng
    for i in range(c.n(30)):
        L = logu(rng, .3, 3); src = Blobs(rng, ["spherical", "axisymmetric", "triaxial", "bisymmetric", "reflection", "none"][i % 6], L, off=.4, nb=1 if i % 6 in (2, 3) else 2); k = ["center", "orientation", "rotation", "scale", "composite", "orientation+center"][rng.integers(6)]
        # native building blocks that do declare a symmetry
        bases = [agama.Potential(type="Multipole", density=src.potential(), lmax=6, gridSizeR=40, rmin=1e-2*L, rmax=1e3*L, symmetry=src.sym), agama.Potential(type="Plummer", scaleRadius=L), agama.Potential(type="MiyamotoNagai", scaleRadius=L, scaleHeight=L)]; pot = bases[0 if i % 2 else rng.integers(3)]
        m = mods(rng, .4*L, kinds=k.split("+"), td=False) if k != "composite" else {}
        args = modargs(rng, m)
        with c.case("symmetry:"+k, dict(P=src.P, sym=src.sym, mods=args)):
            q = agama.Potential(potential=pot, **args) if m else agama.Potential(*[agama.Potential(potential=b, **modargs(rng, mods(rng, .4*L, kinds=[["center"], ["orientation"], ["rotation"]][rng.integers(3)], td=False))) for b in bases[:rng.integers(2, 4)]])
            e = agama.Potential(type="Multipole", potential=q, lmax=14, gridSizeR=40, rmin=1e-2*L, rmax=1e2*L); x = points(rng, 40, .3*L, 10*L, .1); f = q.force(x); fa = np.linalg.norm(f, axis=1)
            c.close(e.potential(x), q.potential(x), "sym-expansion:"+k, 3e-3); c.close(e.force(x), f, "sym-expansion:"+k, 0, 4e-2*fa[:, None])
            e = agama.Density(type="DensitySphericalHarmonic", density=q, lmax=14, gridSizeR=40, rmin=1e-2*L, rmax=1e2*L); r = q.density(x); c.close(e.density(x), r, "sym-density:"+k, 5e-2, .5*fa/(4*pi*np.sqrt((x**2).sum(1))))
            # off-centre or tilted models are not acceptable for an axisymmetric action finder unless still axisymmetric
            axi = abs(q.potential(np.column_stack((x[:, 0]*np.cos(1)-x[:, 1]*np.sin(1), x[:, 0]*np.sin(1)+x[:, 1]*np.cos(1), x[:, 2])))-q.potential(x)).max() < 1e-6*abs(q.potential(x)).max()
            if not axi: c.raises(lambda: agama.ActionFinder(q), "sym-actions:"+k); c.raises(lambda: agama.actions(q, [L, 0, 0, 0, .1, 0]), "sym-actions:"+k)
            if not axi: c.event("refused-nonaxisymmetric")
def evolving(c):
    rng = c.rng
    for i in range(c.n(40)):
        n = int(rng.integers(1, 6)); T = logu(rng, .1, 10); ts = T*np.cumsum(rng.uniform(.3, 1.5, n)); ts -= ts[0]+ts[-1]*rng.random(); L = logu(rng, .1, 10); lin = bool(rng.integers(2)); insts = []; rel = rng.random() < .5
        specs = []
        for k in range(n):
            b = randmodel(rng, ["Plummer", "Isochrone", "NFW", "MiyamotoNagai", "Dehnen", "Logarithmic"][rng.integers(6)], L*logu(rng, .5, 2)); s = dict(b.spec)
            if rng.random() < .3: s["center"] = "%g,%g,%g" % tuple(L*rng.normal(size=3))
            specs.append(s); insts.append(agama.Potential(**s))
        m = mods(rng, L) if rng.random() < .4 else {}; ma = {k: v for k, v in modargs(rng, m).items()}
        with c.case("evolving", dict(t=ts, specs=specs, lin=lin, mods=ma)):
            names = []
            for k, s in enumerate(specs):
                f = tmpf("e%d_%d.ini" % (rng.integers(1 << 40), k)); open(f, "w").write("[Potential]\n"+"".join("%s=%s\n" % (a, repr(float(b)) if isinstance(b, float) else b) for a, b in s.items())); names.append(f)
            f = tmpf("ev%d.ini" % rng.integers(1 << 40))
            with open(f, "w") as o:
                o.write("[Potential evolving]\ntype=Evolving\n")
                if lin or rng.random() < .5: o.write("%s=%s\n" % ("interpLinear" if rng.random() < .7 else "linearInterp", ["true", "True", "1", "yes"][rng.integers(4)] if lin else ["false", "False", "0", "no"][rng.integers(4)]))
                for q, v in ma.items(): o.write("%s=%s\n" % (q, repr(np.asarray(v).tolist()) if isinstance(v, (np.ndarray, list, tuple)) else v))
                o.write("Timestamps\n# comment\n"+"".join("%.17g %s\n" % (t, nm) for t, nm in zip(ts, names)))
            pot = agama.Potential(f)
            def fn(X, t):
                if t <= ts[0]: w = {0: 1.}
                elif t >= ts[-1]: w = {n-1: 1.}
                else:
                    k = np.searchsorted(ts, t, side="right")-1; u = (t-ts[k])/(ts[k+1]-ts[k]); w = {k: 1-u, k+1: u} if lin else {k: 1.} if u <= .5 else {k+1: 1.}
                R = [[w_*v for v in basefn(insts[k])(X, t)] for k, w_ in w.items()]; return tuple(sum(r[j] for r in R) for j in range(4))
            ref = Mod(fn, m) if m else fn
            tt = list(ts)+[ts[0]-T, ts[-1]+T, 0.]+list(rng.uniform(ts[0], ts[-1], 5)) + ([ts[0]+.499*(ts[1]-ts[0]), ts[0]+.501*(ts[1]-ts[0])] if n > 1 else [])
            for t in tt:
                try: cmpall(c, pot, ref, points(rng, 12, .1*L, 20*L, .1), t, "evolving-"+("lin" if lin else "nearest"))
                except Skip: continue
    for i in range(c.n(20)):     # uniform acceleration
        amp = logu(rng, .1, 10); T = Table(rng, 3, amp, kind=["linear", "hermite", "natural", "single"][i % 4]); f = tmpf("u%d.txt" % rng.integers(1 << 40)); np.savetxt(f, T.data, fmt="%.17g"); form = i % 2
        with c.case("uniformacc", dict(data=T.data)):
            pot = agama.Potential(type="UniformAcceleration", file=f) if form else agama.Potential(agama.Potential(type="UniformAcceleration", file=f), agama.Potential(type="Plummer", mass=0))
            for t in times(rng, dict(a=T)):
                a = T(t); x = points(rng, 10, .1, 10); P, A, H = pot.eval(x, pot=True, acc=True, der=True, t=t); c.close(A, np.tile(a, (10, 1)), "uniformacc", 1e-10, 1e-10*amp); c.close(P, -x @ a, "uniformacc-phi", 1e-10, 1e-9*amp); c.close(H, 0*H, "uniformacc-der", 0, 1e-12); c.close(pot.density(x, t=t), 0, "uniformacc-rho", 0, 1e-10)
    # sources of other expansions see the model at the default time zero
    for i in range(c.n(6)):
        L = logu(rng, .1, 10); m = mods(rng, .3*L, kinds=["center", "rotation"]); b = agama.Potential(type="Dehnen", gamma=0, axisRatioY=.8, axisRatioZ=.7, scaleRadius=L)
        with c.case("timezero", dict(L=L)):
            p = agama.Potential(potential=b, **modargs(rng, m)); x = points(rng, 20, .5*L, 5*L); c.close(p.potential(x), p.potential(x, t=0), "timezero", 1e-15); c.close(p.force(x), p.force(x, t=np.zeros(20)), "timezero", 1e-15)
def projection(c):
    """projections of modified models: transformed line of sight"""
    rng = c.rng
    for i in range(c.n(24)):
        L = logu(rng, .1, 10); b = [agama.Potential(type="Plummer", scaleRadius=L), agama.Potential(type="Dehnen", gamma=.5, scaleRadius=L, axisRatioY=.8, axisRatioZ=.6), agama.Potential(type="MiyamotoNagai", scaleRadius=L, scaleHeight=.5*L), Blobs(rng, "none", L).potential()][i % 4]
        m = mods(rng, .5*L, kinds=[["orientation"], ["scale", "orientation"], ["center"], ["center", "rotation"]][i // 4 % 4]); args = modargs(rng, m)
        with c.case("projection", dict(i=i, mods=args)):
            pot = agama.Potential(potential=b, **args); t = float(rng.normal())*.5; A, S = m["scale"](t) if "scale" in m else (1, 1); cen = m["center"](t) if "center" in m else np.zeros(3)
            if S < .05: raise Skip
            R = (rotmat(m["rotation"](t)[0], 0, 0) if "rotation" in m else np.eye(3)) @ (rotmat(*m["orientation"]) if "orientation" in m else np.eye(3))
            al, be, ga = rng.uniform([-3, 0, -3], [3, 3.1, 3]); V = rotmat(al, be, ga); XY = L*rng.normal(size=(12, 2))
            # observer coordinates X = V x, model coordinates y = R (x - cen)/S  =>  V' = V R^T
            from scipy.spatial.transform import Rotation as Ro
            W = V @ R.T; be2 = np.arccos(np.clip(W[2, 2], -1, 1)); al2 = np.arctan2(W[2, 0], -W[2, 1]); ga2 = np.arctan2(W[0, 2], W[1, 2])
            if not np.allclose(rotmat(al2, be2, ga2), W, atol=1e-7): raise Skip
            c0 = V @ cen; uv = (XY-c0[:2])/S
            tol = 3e-3 if i % 4 else 1e-3
            s0 = b.projectedDensity(uv, alpha=al2, beta=be2, gamma=ga2)*A/S**2; c.close(pot.projectedDensity(XY, alpha=al, beta=be, gamma=ga, t=t), s0, "proj-density", tol, 1e-3*s0.max())
            P1, A1, D1 = pot.projectedEval(XY, pot=True, acc=True, der=True, alpha=al, beta=be, gamma=ga, t=t); P0, A0, D0 = b.projectedEval(uv, pot=True, acc=True, der=True, alpha=al2, beta=be2, gamma=ga2)
            c.close(A1, A0*A/S, "proj-acc", 0, tol*np.abs(A0*A/S).max()); c.close(D1, D0*A/S**2, "proj-der", 0, 3*tol*np.abs(D0*A/S**2).max())
GROUPS = dict(modifiers=dict(fn=modifiers, cost=20), densities=dict(fn=densities, cost=10), composites=dict(fn=composites, cost=15), symmetry=dict(fn=symmetry, cost=15), evolving=dict(fn=evolving, cost=10), projection=dict(fn=projection, cost=20))
