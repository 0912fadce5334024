import os, tempfile, numpy as np
from common import *
if not os.environ.get("VERIF_META_ONLY"):
    from vh import Skip
RULE = ("one physical problem (random potential / density / DF / orbits / targets, all dimensional inputs in kpc, km/s, Msun) is solved in the trivial unit system and in several random unit systems (all admissible triples of mass, length, velocity, time; scales over many orders of magnitude); every dimensional output is converted back by independently written factors; "
  "C and Fortran entry points are called on random parameter strings, points, actions and compared with the C++ objects; a case is one operation group in one unit system")
ASSUMPTIONS = ["adaptive integrations may take different branches because of roundoff errors, hence tolerances are those of the algorithms (orbits 1e-4 over a few periods, moments 1e-3)"]
GN = 4.300917270069976e-6   # kpc (km/s)^2 / Msun
MYR = 1.0227121650537077e-3   # kpc/(km/s) = 977.79 Myr  => Myr in kpc/(km/s)
class U:
    """unit system: factors of user units in kpc, km/s, Msun; q(val, m, l, v) physical -> user; p(val, m, l, v) user -> physical"""
    def __init__(self, rng, kind):
        self.kind = kind; self.trivial = kind == "none"
        if self.trivial: self.l = 1.; self.v = 100.; self.m = self.l*self.v**2/GN; agama.setUnits()
        else:
            l, v, m = np.exp(rng.uniform(np.log(1e-4), np.log(1e3))), np.exp(rng.uniform(np.log(.01), np.log(1e4))), np.exp(rng.uniform(np.log(1.), np.log(1e12)))
            if rng.random() < .3: l, v, m = 1., 1., [1., 1e10, 232500.][rng.integers(3)]
            t = l/v/MYR; kw = {"mlv": dict(mass=m, length=l, velocity=v), "mlt": dict(mass=m, length=l, time=t), "mvt": dict(mass=m, velocity=v, time=t)}[kind]; agama.setUnits(**kw); self.l, self.v, self.m = l, v, m
    def f(self, m, l, v): return self.m**m*self.l**l*self.v**v
    def q(self, x, m=0, l=0, v=0): return np.asarray(x, float)/self.f(m, l, v) if np.ndim(x) else float(x)/self.f(m, l, v)
    def p(self, x, m=0, l=0, v=0): return np.asarray(x, float)*self.f(m, l, v)
    def L(self, x): return self.q(x, 0, 1)
    def V(self, x): return self.q(x, 0, 0, 1)
    def M(self, x): return self.q(x, 1)
    def T(self, x): return self.q(x, 0, 1, -1)
    def X6(self, x): return np.hstack((self.L(x[:, :3]), self.V(x[:, 3:])))
    def rho(self, x): return self.q(x, 1, -3)
def run(c, name, fn, tol, nsys=2):
    """fn(u, out): fills out[key] = (physical value array, scale or None)"""
    rng = c.rng; kinds = ["none"]+list(rng.permutation(["mlv", "mlt", "mvt"]))[:nsys]; ref = None; seed = int(rng.integers(1 << 30))
    try:
        for k in kinds:
            with c.case(name+":"+k, dict(seed=seed, kind=k)):
                u = U(np.random.default_rng([seed, len(k), ord(k[1]), ord(k[2])]), k)
                if not u.trivial: c.close(agama.G/u.m*(u.l*u.v**2), GN, "units:G", 1e-4); g = agama.getUnits(); g = {a: float(getattr(b, "value", b)) for a, b in g.items()}; c.close([g["length"], g["velocity"], g["mass"], g["time"]], [u.l, u.v, u.m, u.l/u.v/MYR], "units:get", 1e-5)
                else: c.ok(agama.G == 1 and not agama.getUnits(), "units:trivial")
                o = {}; agama.setRandomSeed(seed % 10000+1); fn(u, o, np.random.default_rng(seed))
                if ref is None: ref = o; continue
                for key in o:
                    a, b = np.asarray(o[key], float), np.asarray(ref[key], float); t = tol.get(key.split(":")[0], 1e-6); c.ok(a.shape == b.shape, name+":"+key+":shape", "%s %s" % (a.shape, b.shape)); fin = np.isfinite(b); c.ok(np.array_equal(np.isfinite(a), fin), name+":"+key+":finite", "%s %s" % (a, b)); s = np.abs(b[fin]).max(initial=0); c.close(np.where(fin, a, 0), np.where(fin, b, 0), name+":"+key, t, t*s)
    finally: agama.setUnits()
def P0(u, r):
    """random potential parameters in physical units -> user units"""
    M, a = 10**r.uniform(7, 12), 10**r.uniform(-1, 1.5); k = r.integers(9)
    if k == 0: return dict(type="Dehnen", mass=u.M(M), scaleRadius=u.L(a), gamma=float(r.uniform(0, 1.8)), axisRatioZ=.7), M, a
    if k == 1: return dict(type="MiyamotoNagai", mass=u.M(M), scaleRadius=u.L(a), scaleHeight=u.L(a*.3)), M, a
    if k == 2: return dict(type="NFW", mass=u.M(M), scaleRadius=u.L(a)), M, a
    if k == 3: return dict(type="Logarithmic", v0=u.V(np.sqrt(GN*M/a)), scaleRadius=u.L(a), axisRatioY=.9, axisRatioZ=.8), M, a
    if k == 4: return dict(type="Harmonic", Omega=u.q(np.sqrt(GN*M/a**3), 0, -1, 1), axisRatioZ=.8), M, a
    if k == 5: return dict(type="Disk", surfaceDensity=u.q(M/a**2, 1, -2), scaleRadius=u.L(a), scaleHeight=u.L(a*.2)), M, a
    if k == 6: return dict(type="Spheroid", densityNorm=u.rho(M/a**3), scaleRadius=u.L(a), gamma=.8, beta=4., alpha=1.2, axisRatioY=.8, axisRatioZ=.6, outerCutoffRadius=u.L(20*a), lmax=6), M, a
    if k == 7: return dict(type="Plummer", mass=u.M(M), scaleRadius=u.L(a), center=u.L(np.array([.3, .2, .1])*a), orientation=[.3, .4, .5]), M, a
    return dict(type="Sersic", mass=u.M(M), scaleRadius=u.L(a), sersicIndex=2., lmax=4, axisRatioZ=.7), M, a
def potentials(c):
    def fn(u, o, r):
        par, M, a = P0(u, r); log = par["type"] in ("Logarithmic", "Harmonic"); p = agama.Potential(**par); x = a*np.exp(r.normal(size=(8, 3))*.7)*r.choice([-1, 1], (8, 3)); X = u.L(x); vs = GN*M/a
        zp = p.potential(X)[0]*(par["type"] == "Logarithmic"); o["phi"] = u.p(p.potential(X)-zp, 0, 0, 2)/vs; f, d = p.forceDeriv(X); o["force"] = u.p(f, 0, -1, 2)/vs*a; o["force:0"] = u.p(p.force(X), 0, -1, 2)/vs*a; o["deriv"] = u.p(d, 0, -2, 2)/vs*a*a
        e = p.eval(X, pot=True, acc=True, der=True); o["eval:p"] = u.p(e[0]-zp, 0, 0, 2)/vs; o["eval:a"] = u.p(e[1], 0, -1, 2)/vs*a; o["eval:d"] = u.p(e[2], 0, -2, 2)/vs*a*a; o["dens"] = u.p(p.density(X), 1, -3)*a**3/M; 
        if not log:
            o["encl"] = u.p(p.enclosedMass(u.L(np.array([.5, 3])*a)), 1)/M; o["surf"] = u.p(p.projectedDensity(X[:, :2], beta=.7, gamma=.2), 1, -2)*a*a/M; q = p.projectedEval(X[:3, :2], pot=True, acc=True, der=True, beta=.4)if par["type"] != "Disk" else None
            if q is not None: o["proj:a"] = u.p(q[1], 0, 0, 2)/vs; o["proj:d"] = u.p(q[2], 0, -1, 2)/vs*a
            if par["type"] not in ("NFW",): o["mass"] = u.p(p.totalMass(), 1)/M
        if "center" not in par:
            if par["type"] != "Harmonic":
                R = a*np.array([.5, 2.]); E = p.potential(np.column_stack((u.L(R), 0*R, 0*R)))+.5*u.q(.3*GN*M/R, 0, 0, 2); o["rcirc"] = u.p(p.Rcirc(E=E), 0, 1)/a; o["tcirc"] = u.p(p.Tcirc(E), 0, 1, -1)/a*np.sqrt(vs); o["rcircL"] = u.p(p.Rcirc(L=u.q(a*np.sqrt(vs)*np.array([.3, 1.]), 0, 1, 1)), 0, 1)/a; o["rmax"] = u.p(p.Rmax(E), 0, 1)/a; o["tcircx"] = u.p(p.Tcirc(u.X6(np.hstack((x[:2], x[:2]*0+np.sqrt(vs)*.3)))), 0, 1, -1)/a*np.sqrt(vs)
                o["rperi"] = u.p(p.Rperiapo(np.column_stack((E, u.q(.3*np.sqrt(vs)*R, 0, 1, 1)))), 0, 1)/a; o["rperix"] = u.p(p.Rperiapo(u.X6(np.hstack((x[:2], x[:2]*0+np.sqrt(vs)*.3)))), 0, 1)/a
            if not log: sh = p.principalAxes(u.L(a)); o["axes"] = sh[0]; s = agama.Density(p).sample(4000) if par["type"] in ("Dehnen", "Spheroid", "MiyamotoNagai") else None
            if not log and s is not None: o["sample:x"] = np.median(np.abs(u.p(s[0], 0, 1)), axis=0)/a; o["sample:m"] = u.p(s[1].sum(), 1)/M
        # export and re-import within the same unit system; modifiers; time-dependent orbits of the centre; particles; cumulative mass
        with tempfile.TemporaryDirectory() as td:
            fnm = os.path.join(td, "p.ini"); lm = agama.Potential(type="Multipole", density=agama.Density(type="Spheroid", densityNorm=u.rho(M/a**3), scaleRadius=u.L(a), gamma=1., beta=4., axisRatioZ=.7), rmin=u.L(a*.01), rmax=u.L(a*100), lmax=4, gridSizeR=15); lm.export(fnm); l2 = agama.Potential(fnm); o["export"] = u.p(l2.potential(X), 0, 0, 2)/vs; c.close(l2.potential(X), lm.potential(X), "export", 1e-8)
            cy = agama.Potential(type="CylSpline", density=agama.Density(type="Disk", surfaceDensity=u.q(M/a**2, 1, -2), scaleRadius=u.L(a), scaleHeight=u.L(a*.2)), rmin=u.L(a*.05), rmax=u.L(a*20), zmin=u.L(a*.05), zmax=u.L(a*10), gridSizeR=12, gridSizeZ=12, mmax=0); o["cylspline"] = u.p(cy.potential(X), 0, 0, 2)/vs; cy.export(fnm); o["cylspline:export"] = u.p(agama.Potential(fnm).potential(X), 0, 0, 2)/vs
            bs = agama.Potential(type="BasisSet", density=agama.Density(type="Plummer", mass=u.M(M), scaleRadius=u.L(a)), lmax=2, nmax=6, r0=u.L(a)); o["basis"] = u.p(bs.potential(X), 0, 0, 2)/vs; bs.export(fnm); o["basis:export"] = u.p(agama.Potential(fnm).potential(X), 0, 0, 2)/vs
            open(fnm, "w").write("[Potential]\ntype=Dehnen\nmass=%.15g\nscaleRadius=%.15g\n[Potential disk]\ntype=Disk\nsurfaceDensity=%.15g\nscaleRadius=%.15g\nscaleHeight=%.15g\n" % (u.M(M), u.L(a), u.q(M/a**2, 1, -2), u.L(a), u.L(-.1*a))); o["ini"] = u.p(agama.Potential(fnm).potential(X), 0, 0, 2)/vs
            tr = np.column_stack((u.T(np.linspace(0, 1, 6)*a/np.sqrt(vs)), u.L(a*np.cumsum(np.full((6, 3), .2), 0)))); tp = agama.Potential(type="Plummer", mass=u.M(M), scaleRadius=u.L(a), center=tr); tt = u.T(.37*a/np.sqrt(vs)); o["center"] = u.p(tp.potential(X, t=tt), 0, 0, 2)/vs; o["center:d"] = u.p(tp.density(X, t=tt), 1, -3)*a**3/M
            ro = agama.Potential(potential=agama.Potential(type="Dehnen", axisRatioY=.5, mass=u.M(M), scaleRadius=u.L(a)), rotation=np.column_stack((u.T(np.linspace(0, 1, 6)*a/np.sqrt(vs)), np.linspace(0, 2, 6)))) ; o["rotation"] = u.p(ro.potential(X, t=tt), 0, 0, 2)/vs; sc = agama.Potential(potential=agama.Potential(type="Dehnen", axisRatioY=.5, mass=u.M(M), scaleRadius=u.L(a)), scale=np.column_stack((u.T(np.linspace(0, 1, 6)*a/np.sqrt(vs)), np.linspace(1, 2, 6), np.linspace(1, 1.5, 6)))); o["scale"] = u.p(sc.force(X, t=tt), 0, -1, 2)/vs*a
            kb = agama.Potential(type="KeplerBinary", mass=u.M(M), binary_q=.3, binary_sma=u.L(a), binary_ecc=.2); o["binary"] = u.p(kb.potential(X, t=tt), 0, 0, 2)/vs; ua = agama.Potential(type="UniformAcceleration", file=None) if False else None
            pts = a*r.normal(size=(400, 3)); mp = agama.Potential(type="Multipole", particles=(u.L(pts), u.M(np.full(400, M/400))), lmax=2, gridSizeR=10, symmetry="axi"); o["particles"] = u.p(mp.potential(X), 0, 0, 2)/vs
            rr = a*np.logspace(-2, 2, 15); cm = agama.Density(cumulmass=np.column_stack((u.L(rr), u.M(M*rr**2/(rr+a)**2)))); o["cumulmass"] = u.p(cm.density(X), 1, -3)*a**3/M
            pc = p if False else agama.Potential(potential=lambda y, t=None: u.q(-GN*M/np.sqrt((u.p(y, 0, 1)**2).sum(1)+a*a), 0, 0, 2), symmetry="s"); o["user"] = u.p(pc.potential(X), 0, 0, 2)/vs; ff, dd = pc.forceDeriv(X); o["fd"] = u.p(ff, 0, -1, 2)/vs*a; o["fd2"] = u.p(dd, 0, -2, 2)/vs*a*a; ex = -GN*M/np.sqrt((x**2).sum(1)+a*a)/vs; c.close(o["user"], ex, "user:potential", 1e-6); c.close(o["fd"], -x*a/((x**2).sum(1)+a*a)[:, None]**1.5*a, "user:force", 1e-3, 1e-3)
            dc = agama.Density(density=lambda y: u.rho(M/a**3*np.exp(-(u.p(y, 0, 1)**2).sum(1)/a/a)), symmetry="s"); o["userdens"] = u.p(dc.density(X), 1, -3)*a**3/M; c.close(o["userdens"], np.exp(-(x**2).sum(1)/a/a), "user:density", 1e-6); o["userdens:mass"] = u.p(dc.totalMass(), 1)/M; c.close(o["userdens:mass"], np.pi**1.5, "user:mass", 1e-4)
            up = agama.Potential(type="Multipole", density=dc, lmax=0, rmin=u.L(a*.01), rmax=u.L(a*10)); o["userexp"] = u.p(up.potential(X), 0, 0, 2)/vs
    for i in range(c.n(8)): run(c, "pot", fn, dict(proj=2e-3, surf=2e-3, encl=2e-3, mass=2e-3, sample=.15, fd=1e-3, fd2=5e-2, export=1e-6, axes=2e-2, rcirc=1e-5, tcirc=1e-4, tcircx=1e-4, rcircL=1e-5, userdens=2e-4, ini=1e-5, cumulmass=1e-5, particles=1e-5, rperi=1e-5, rperix=1e-5, rmax=1e-5, cylspline=1e-3, basis=1e-4, userexp=1e-4, phi=1e-5, force=1e-5, deriv=1e-4, eval=1e-4, dens=1e-4))
def dynamics(c):
    def fn(u, o, r):
        M, a = 10**r.uniform(7, 12), 10**r.uniform(-1, 1.5); v0 = np.sqrt(GN*M/a); sph = r.random() < .4; p = agama.Potential(**(dict(type="Dehnen", gamma=1., mass=u.M(M), scaleRadius=u.L(a)) if sph else dict(type="MiyamotoNagai", mass=u.M(M), scaleRadius=u.L(a), scaleHeight=u.L(.4*a)))); X = np.hstack((a*r.uniform(.3, 2, (6, 3)), v0*r.normal(size=(6, 3))*.25)); XV = u.X6(X); J0 = a*v0; W = v0/a; interp = bool(r.random() < .5)
        af = agama.ActionFinder(p, interp=interp); J, th, Om = af(XV, actions=True, angles=True, frequencies=True); o["J"] = u.p(J, 0, 1, 1)/J0; o["theta"] = np.concatenate((np.sin(th), np.cos(th))); o["Omega"] = u.p(Om, 0, -1, 1)/W; j1, om1 = agama.actions(p, XV, fd=u.L(.5*a), frequencies=True); o["J:standalone"] = u.p(j1, 0, 1, 1)/J0; o["Omega:standalone"] = u.p(om1, 0, -1, 1)/W
        am = agama.ActionMapper(p); JT = np.array([[.3, .2, .5, 1, 2, 3], [.1, .1, .8, .3, 4, 5.]]); xv, om = am(np.hstack((JT[:, :3]*u.q(J0, 0, 1, 1), JT[:, 3:])), frequencies=True); o["torus"] = np.hstack((u.p(xv[:, :3], 0, 1)/a, u.p(xv[:, 3:], 0, 0, 1)/v0)); o["torus:om"] = u.p(om, 0, -1, 1)/W
        def udf(J, der=False):
            j = u.p(J, 0, 1, 1)/J0; f = M/J0**3*np.exp(-j[:, 0]-j[:, 1]-np.abs(j[:, 2])); F = u.q(f, 1, -3, -3)
            return (F, u.q(f[:, None]*np.column_stack((-1+0*j[:, 0], -1+0*j[:, 0], -np.sign(j[:, 2])))/J0, 1, -4, -4)) if der else F
        dfs = [agama.DistributionFunction(type="DoublePowerLaw", norm=u.M(M), J0=u.q(J0*.5, 0, 1, 1), slopeIn=1., slopeOut=6., Jcutoff=u.q(J0*9, 0, 1, 1), rotFrac=.5, Jphi0=u.q(J0*.1, 0, 1, 1)), agama.DistributionFunction(type="Exponential", norm=u.M(M), Jr0=u.q(J0*.1, 0, 1, 1), Jz0=u.q(J0*.05, 0, 1, 1), Jphi0=u.q(J0*.5, 0, 1, 1), addJden=u.q(J0*.1, 0, 1, 1), addJvel=u.q(J0*.1, 0, 1, 1)), agama.DistributionFunction(type="QuasiSpherical", density=agama.Density(type="Dehnen", gamma=1., mass=u.M(M), scaleRadius=u.L(a)), potential=agama.Potential(type="Dehnen", gamma=1., mass=u.M(M), scaleRadius=u.L(a)), beta0=.1, r_a=u.L(5*a)),
               agama.DistributionFunction(udf), agama.DistributionFunction(type="QuasiIsothermal", Sigma0=u.q(M/a/a/9, 1, -2), Rdisk=u.L(a), Hdisk=u.L(.2*a), sigmar0=u.V(.3*v0), Rsigmar=u.L(2*a), sigmamin=u.V(.02*v0), Jmin=u.q(.05*J0, 0, 1, 1), potential=p)]
        for k, d in enumerate(dfs):
            JJ = u.q(np.abs(np.random.default_rng(k).normal(size=(5, 3)))*J0, 0, 1, 1); o["df:%d" % k] = u.p(d(JJ), 1, -3, -3)*J0**3/M; f, g = d(JJ, der=True); o["dfder:%d" % k] = u.p(g, 1, -4, -4)*J0**4/M; o["dfmass%s:%d" % ("qs" if k == 2 else "", k)] = u.p(d.totalMass(), 1)/M
        sf = agama.SelectionFunction(u.L(np.array([.5, 0, 0])*a), u.L(a), 2.) if r.random() < .5 else None; g = agama.GalaxyModel(p, dfs[0], **({} if sf is None else dict(sf=sf))); d, v, v2 = g.moments(XV[:3, :3], dens=True, vel=True, vel2=True); o["mom:d"] = u.p(d, 1, -3)*a**3/M; o["mom:v"] = u.p(v, 0, 0, 1)/v0; o["mom:v2"] = u.p(v2, 0, 0, 2)/v0**2
        d, v, v2 = g.moments(XV[:2, :2], dens=True, vel=True, vel2=True, beta=.6); o["momp:d"] = u.p(d, 1, -2)*a*a/M; o["momp:v"] = u.p(v, 0, 0, 1)/v0; o["momp:v2"] = u.p(v2, 0, 0, 2)/v0**2; inf = np.inf
        for k, e in enumerate(([inf, inf, .2*v0], [inf, inf, inf], [.2*v0, .1*v0, inf])): o["pdf:%d" % k] = u.p(g.projectedDF(np.hstack((XV[0, :2], u.V(np.array([0, 0, .1])*v0), u.V(np.array(e)))), beta=.5), 1, -2, -np.sum(np.isfinite(e)))*a*a/M*v0**np.sum(np.isfinite(e))
        gv = np.linspace(-1.5, 1.5, 21)*v0; S = g.vdf(XV[:2, :3], gridv=u.V(gv), dens=True); o["vdf:dens"] = u.p(S[3], 1, -3)*a**3/M; vv = np.linspace(-1, 1, 9)*v0; o["vdf:f"] = np.array([[u.p(S[k][j](u.V(vv)), 0, 0, -1)*v0 for k in range(3)] for j in range(2)]); o["vdf:grid"] = u.p([S[0][0][0], S[0][0][20]], 0, 0, 1)/v0
        S = g.vdf(XV[0, :2], gridv=u.V(gv), dens=True, beta=1.); o["vdf:pdens"] = u.p(S[3], 1, -2)*a*a/M; o["gmass"] = u.p(g.totalMass(), 1)/M; s, m = g.sample(2000); o["gsample:m"] = u.p(m.sum(), 1)/M; o["gsample:r"] = np.median(np.linalg.norm(u.p(s[:, :3], 0, 1), axis=1))/a; o["gsample:v"] = np.median(np.linalg.norm(u.p(s[:, 3:], 0, 0, 1), axis=1))/v0
        if sf is not None: o["sf"] = sf(XV)
        T = 6*a/v0; Om0 = .2*v0/a; kw = dict(potential=p, ic=XV, time=u.T(T), timestart=u.T(a/v0), Omega=u.q(Om0, 0, -1, 1), trajsize=7, accuracy=1e-10, verbose=False, dtype=float); tr, der = agama.orbit(der=True, **kw); o["orbit:t"] = np.array([u.p(t[0], 0, 1, -1) for t in tr])*v0/a; o["orbit:x"] = np.array([u.p(t[1][:, :3], 0, 1)/a for t in tr]); o["orbit:v"] = np.array([u.p(t[1][:, 3:], 0, 0, 1)/v0 for t in tr])
        D = np.array([[np.asarray(q) for q in row] for row in der], float); fx = np.r_[np.full(3, a), np.full(3, v0)]; un = np.r_[np.full(3, u.l), np.full(3, u.v)]; o["orbitder"] = (D*un/un[:, None][None, :, None, :].reshape(1, 6, 1, 1)*fx[None, :, None, None]/fx) if D.ndim == 4 else D*0
        ob = agama.orbit(potential=p, ic=XV[0], time=u.T(T), Omega=u.q(Om0, 0, -1, 1), accuracy=1e-10, dtype=object, verbose=False); o["orbitobj"] = np.r_[u.p(ob(u.T(.4*T))[:3], 0, 1)/a, u.p(ob(u.T(.4*T))[3:], 0, 0, 1)/v0]; ly = agama.orbit(potential=p, ic=XV[0], time=u.T(10*T), lyapunov=True, verbose=False); o["lyap"] = [np.isfinite(float(np.ravel(ly)[-1]))]
        rx = np.linspace(.3, 3, 5)*a; gx = np.linspace(-3, 3, 7)*a; ap = np.array([[-1, -1], [1.5, -1], [1, 1.2], [-1, 1]])*a; dn = agama.Density(type="Dehnen", gamma=.5, mass=u.M(M), scaleRadius=u.L(a), axisRatioZ=.8)
        for k, kt in enumerate((dict(type="DensityClassicTopHat", gridr=u.L(rx), stripsPerPane=2), dict(type="DensitySphHarm", gridr=u.L(rx), lmax=2, mmax=2), dict(type="DensityCylindricalLinear", gridR=u.L(rx), gridz=u.L(rx), mmax=0), dict(type="KinemShell", gridr=u.L(rx), degree=1), dict(type="LOSVD", gridx=u.L(gx), gridv=u.V(np.linspace(-1, 1, 6)*v0), apertures=[u.L(ap)], psf=u.L(.3*a), velpsf=u.V(.1*v0), degree=2, beta=.6, symmetry="t"))):
            t = agama.Target(**kt); dv = {"K": 2, "L": -1}.get(kt["type"][0], 0)
            if kt["type"][0] != "K": o["target%d:dens" % k] = u.p(t(dn), 1)/M
            o["target%d:part" % k] = u.p(t((XV, u.M(np.full(6, M/6)))), 1, 0, dv)/M/v0**dv; ot = np.array(agama.orbit(potential=p, ic=XV, time=u.T(T), targets=[t], accuracy=1e-10, verbose=False), float); o["torb:%d" % k] = u.p(ot, 0, 0, dv)/v0**dv
    tol = dict(J=2e-4, Omega=2e-3, theta=3e-3, torus=3e-2, df=1e-4, dfder=1e-3, dfmass=2e-2, dfmassqs=.3, mom=2e-2, momp=3e-2, pdf=5e-2, vdf=5e-2, gmass=2e-2, gsample=.15, orbit=1e-4, orbitder=1e-3, orbitobj=1e-4, torb=2e-3, target0=2e-3, target1=2e-3, target2=2e-3, target3=2e-3, target4=2e-3, sf=1e-6)
    for i in range(c.n(3)): run(c, "dyn", fn, tol, 1 if not c.thorough else 3)
def models(c):
    def fn(u, o, r):
        M, a = 10**r.uniform(7, 12), 10**r.uniform(-1, 1.5); v0 = np.sqrt(GN*M/a); J0 = a*v0; s = agama.SelfConsistentModel(rminSph=u.L(.01*a), rmaxSph=u.L(50*a), sizeRadialSph=12, lmaxAngularSph=0, RminCyl=u.L(.1*a), RmaxCyl=u.L(20*a), sizeRadialCyl=10, zminCyl=u.L(.05*a), zmaxCyl=u.L(5*a), sizeVerticalCyl=10, useActionInterpolation=False, verbose=False); x = a*np.exp(r.normal(size=(5, 3))*.5); X = u.L(x)
        s.components.append(agama.Component(df=agama.DistributionFunction(type="DoublePowerLaw", norm=u.M(2*M), J0=u.q(J0, 0, 1, 1), slopeIn=0., slopeOut=6.), density=agama.Density(type="Plummer", mass=u.M(M), scaleRadius=u.L(a)), disklike=False, rminSph=u.L(.05*a), rmaxSph=u.L(20*a), sizeRadialSph=8, lmaxAngularSph=0)); s.components.append(agama.Component(density=agama.Density(type="Disk", surfaceDensity=u.q(.01*M/a/a, 1, -2), scaleRadius=u.L(a), scaleHeight=u.L(.2*a)), disklike=True)); s.components.append(agama.Component(potential=agama.Potential(type="Plummer", mass=u.M(.1*M), scaleRadius=u.L(.1*a)), disklike=False)); s.iterate(); o["scm:phi"] = u.p(s.potential.potential(X), 0, 0, 2)/v0**2; o["scm:dens"] = u.p(s.components[0].density.density(X), 1, -3)*a**3/M; o["scm:force"] = u.p(s.potential.force(X), 0, -1, 2)/v0**2*a
        d = agama.Density(type="Dehnen", gamma=1., mass=u.M(M), scaleRadius=u.L(a)); p = agama.Potential(d if False else dict(type="Dehnen", gamma=1., mass=u.M(M), scaleRadius=u.L(a)))
        for k, kw in enumerate((dict(beta=.0), dict(beta=.2, kappa=.5))): xv, m = d.sample(3000, potential=p, **kw); o["vel:m%d" % k] = u.p(m.sum(), 1)/M; R = np.linalg.norm(u.p(xv[:, :3], 0, 1), axis=1)/a; o["vel:r%d" % k] = np.median(R); o["vel:v%d" % k] = np.median(np.linalg.norm(u.p(xv[:, 3:], 0, 0, 1), axis=1))/v0
        with tempfile.TemporaryDirectory() as td:
            f = os.path.join(td, "a"); XV = u.X6(np.hstack((a*r.normal(size=(20, 3)), v0*r.normal(size=(20, 3))))); mm = u.M(np.full(20, M/20))
            for fmt in ("text",): agama.writeSnapshot(f, (XV, mm), fmt); y, m2 = agama.readSnapshot(f); o["snap:"+fmt] = np.hstack((u.p(y[:, :3], 0, 1)/a, u.p(y[:, 3:], 0, 0, 1)/v0, u.p(m2, 1)[:, None]/M)); c.close(y, XV, "snapshot:roundtrip", 1e-5); c.close(m2, mm, "snapshot:mass", 1e-5)
    for i in range(c.n(2)): run(c, "models", fn, dict(scm=2e-2, vel=.1, snap=1e-5), 1 if not c.thorough else 3)
def astro(c):
    """setUnits with astropy quantities, incomplete and contradictory arguments; state after errors"""
    import astropy.units as au
    rng = c.rng
    try:
        for i in range(c.n(60)):
            with c.case("setunits", dict(i=i)):
                l, v, m = np.exp(rng.normal(size=3)*3); t = l/v/MYR; agama.setUnits(mass=m*1e9*au.Msun, length=l*au.pc, velocity=v*au.km/au.s); g = agama.getUnits(); c.close([g["length"].to_value(au.pc), g["velocity"].to_value(au.km/au.s), g["mass"].to_value(au.Msun)/1e9], [l, v, m], "units:astropy", 1e-5); c.close(g["time"].to_value(au.Myr), l*1e-3/v/MYR, "units:astropy-time", 1e-5); c.close(agama.G, GN*1e9*m/(l*1e-3)/v/v, "units:astropy-G", 1e-4)
                for bad in (dict(length=1.), dict(length=1., velocity=1., time=1.), dict(mass=1., length=1.), dict(mass=-1., length=1., velocity=1.), dict(mass=1., length=1., velocity=1., time=1.), dict(mass=1., length=0., time=1.), dict(mass=1., foo=1., time=1.)): c.raises(lambda: agama.setUnits(**bad), "units:invalid", ); c.close(agama.getUnits()["length"].to_value(au.pc), l, "units:kept", 1e-5)
                agama.setUnits(); c.ok(agama.G == 1 and agama.getUnits() == {}, "units:reset")
    finally: agama.setUnits()
GROUPS = dict(iface=dict(cpp="c17_iface", cost=6), potentials=dict(fn=potentials, cost=12), dynamics=dict(fn=dynamics, cost=30, timeout=400), models=dict(fn=models, cost=12, timeout=400), astro=dict(fn=astro, cost=2))
