import os, re, sys, threading, signal, ctypes, warnings, numpy as np
from common import *
if not os.environ.get("VERIF_META_ONLY"):
    from vh import Skip
RULE = ("random objects and inputs for every parallel operation of the library; a case is one operation executed (a) with 1, 2, 3, 5 and 8 threads and compared, (b) under ThreadSanitizer with an instrumented OpenMP runtime and random delays, "
  "(c) from several Python threads at once, or (d) with failing iterations (non-finite input, raising callbacks, interrupt signal) in random positions")
ASSUMPTIONS = ["boolean stop/fail flags that are only ever raised may be read without synchronisation (recorded as events, not as violations)", "explicit random-number generation from concurrent Python threads is outside the guarantee"]
# ---------------------------------------------------------------- operations
def spheroid(rng, tri=True): return agama.Density(type="Spheroid", mass=logu(rng, .1, 10), scaleRadius=logu(rng, .3, 3), gamma=float(rng.uniform(0, 1.5)), beta=float(rng.uniform(3.6, 5)), alpha=1, axisRatioY=float(rng.uniform(.6, .95)) if tri else 1., axisRatioZ=float(rng.uniform(.4, .9)))
def axipot(rng): L, M = logu(rng, .3, 3), logu(rng, .3, 3); return agama.Potential(dict(type="MiyamotoNagai", mass=M, scaleRadius=L, scaleHeight=.3*L), dict(type="NFW", mass=10*M, scaleRadius=8*L)), L, M
def sphpot(rng): L, M = logu(rng, .3, 3), logu(rng, .3, 3); return agama.Potential(type=["Plummer", "Isochrone", "NFW", "Dehnen"][rng.integers(4)], mass=M, scaleRadius=L), L, M
def bound(rng, pot, L, n):
    x = points(rng, n, .2*L, 4*L, .1); v = dirs(rng, n)*(np.sqrt(np.linalg.norm(pot.force(x), axis=1)*np.linalg.norm(x, axis=1))*rng.uniform(.3, 1.1, n))[:, None]; return np.column_stack((x, v))
def galmodel(rng):
    pot, L, M = axipot(rng); J0 = L*np.sqrt(2*L*-pot.force(2*L, 0, 0)[0]); df1 = agama.DistributionFunction(type="DoublePowerLaw", norm=M, J0=J0, slopeIn=1., slopeOut=5.5, rotFrac=.5, Jphi0=J0); df2 = agama.DistributionFunction(type="Exponential", norm=M, Jr0=.35*J0, Jz0=.3*J0, Jphi0=J0, addJden=.3*J0, addJvel=.3*J0)
    af = agama.ActionFinder(pot); return agama.GalaxyModel(pot, agama.DistributionFunction(df1, df2), af), pot, L, M
def flat(r):
    """all numbers of a result, in order"""
    if isinstance(r, (tuple, list)): return np.concatenate([flat(q) for q in r]) if len(r) else np.zeros(0)
    if isinstance(r, np.ndarray) and r.dtype == object: return np.concatenate([flat(q) for q in r.ravel()]) if r.size else np.zeros(0)
    if isinstance(r, dict): return np.concatenate([flat(r[k]) for k in sorted(r)])
    if r is None: return np.zeros(0)
    if callable(r) and hasattr(r, "__len__"): t = np.asarray(list(r)); return flat([t, np.asarray(r(t))])
    return np.asarray(r).astype(complex).ravel()
def body(rng, n): x = dirs(rng, n)*(.5*np.exp(rng.normal(size=n)))[:, None]*[1, .8, .6]; return x, rng.uniform(.5, 1.5, n)/n
def op_eval(rng, k):
    m = randmodel(rng); x = points(rng, k*3000, .1*m.L, 10*m.L, .1); return lambda: [m.obj.potential(x), m.obj.force(x), m.obj.density(x), m.obj.eval(x, pot=True, acc=True, der=True)]
def op_python(rng, k):
    L = logu(rng, .3, 3); x = points(rng, k*3000, .1*L, 10*L, .1); d = agama.Density(lambda p, t=0: np.exp(-np.sqrt((p**2).sum(1))/L)); return lambda: d.density(x)
def op_roots(rng, k):
    m = randmodel(rng, ["Plummer", "NFW", "MiyamotoNagai", "Multipole", "CylSpline", "Isochrone"][rng.integers(6)]); pot = m.obj; E = pot.potential(points(rng, k*200, .3*m.L, 5*m.L)); xv = bound(rng, pot, m.L, k*200); Lz = abs(xv[:, 0]*xv[:, 4]-xv[:, 1]*xv[:, 3])
    return lambda: [pot.Rcirc(E=E), pot.Tcirc(E), pot.Rmax(E), pot.Rperiapo(np.column_stack((E, Lz*0))), pot.Rcirc(L=Lz), pot.projectedEval(xv[:k*70, :2], acc=True), pot.projectedDensity(xv[:k*70, :2], alpha=.3, beta=.7), pot.enclosedMass(np.linspace(.1, 9, 9)*m.L)]
def op_actions(rng, k):
    pot, L, M = (sphpot if rng.random() < .3 else axipot)(rng); af = agama.ActionFinder(pot); afi = agama.ActionFinder(pot, interp=True); xv = bound(rng, pot, L, k*300); return lambda: [af(xv, actions=True, angles=True, frequencies=True), afi(xv, actions=True, angles=True), agama.actions(pot, xv, fd=.5*L, angles=True)]
def op_finder(rng, k):
    pot, L, M = (sphpot if rng.random() < .3 else axipot)(rng); xv = bound(rng, pot, L, k*50); return lambda: [agama.ActionFinder(pot)(xv), agama.ActionFinder(pot, interp=True)(xv)]
def op_mapper(rng, k):
    # the torus mapper caches one torus per triplet of actions
    pot, L, M = (sphpot if rng.random() < .6 else axipot)(rng); am = agama.ActionMapper(pot); J0 = L*np.sqrt(L*-pot.force(L, 0, 0)[0]); n = 300 if "sph" in str(am).lower() or "Iso" in str(am) else 30; J = J0*np.abs(rng.normal(size=(4, 3)))[rng.integers(0, 4, n)]; aa = np.column_stack((J, rng.uniform(0, 2*pi, (n, 3)))); return lambda: agama.ActionMapper(pot)(aa)
def op_orbit(rng, k):
    m = randmodel(rng, ["Plummer", "MiyamotoNagai", "Logarithmic", "Dehnen", "Composite", "PerfectEllipsoid"][rng.integers(6)]); ic = bound(rng, m.obj, m.L, k*16); T = 5*m.L/np.linalg.norm(ic[:, 3:], axis=1); n = int(rng.integers(2, 30)); den = agama.Density(type="Plummer", scaleRadius=m.L)
    tg = [agama.Target(type="DensityClassicLinear", gridr=m.L*np.linspace(0, 5, 6), stripsPerPane=2), agama.Target(type="KinemShell", gridr=m.L*np.linspace(.5, 5, 6), degree=1)]; tu = rng.random() < .5; T = T if tu else float(T[0]); Om = float(rng.normal()) if rng.random() < .5 else 0.; what = rng.integers(4)
    kw = dict(potential=m.obj, ic=ic, time=T, Omega=Om, verbose=False)
    if what == 0: kw.update(trajsize=n, targets=tg)
    elif what == 1: kw.update(trajsize=n, dtype=[np.float32, complex, object, np.complex64][rng.integers(4)])
    elif what == 2: kw.update(targets=tg)
    else: kw.update(trajsize=n, der=True, lyapunov=False)
    return lambda: agama.orbit(**kw)
def op_lyap(rng, k):
    m = randmodel(rng, ["Logarithmic", "MiyamotoNagai", "PerfectEllipsoid"][rng.integers(3)]); ic = bound(rng, m.obj, m.L, k*16); T = 20*m.L/np.linalg.norm(ic[:, 3:], axis=1).min(); return lambda: agama.orbit(potential=m.obj, ic=ic, time=T, trajsize=3, lyapunov=True, verbose=False)
def op_multipole(rng, k):
    d = spheroid(rng, rng.random() < .6); x = points(rng, 50, .1, 10); return lambda: agama.Potential(type="Multipole", density=d, lmax=8, gridSizeR=20).eval(x, acc=True)
def op_basisset(rng, k):
    d = spheroid(rng, rng.random() < .6); x = points(rng, 50, .1, 10); return lambda: agama.Potential(type="BasisSet", density=d, lmax=6, nmax=8).eval(x, acc=True)
def op_cylspline(rng, k):
    d = spheroid(rng, rng.random() < .5) if rng.random() < .5 else agama.Density(type="Disk", scaleHeight=.2); x = points(rng, 50, .2, 5); return lambda: agama.Potential(type="CylSpline", density=d, mmax=4, gridSizeR=12, gridSizeZ=12, rmin=.05, rmax=20, zmin=.05, zmax=20).eval(x, acc=True)
def op_cylpot(rng, k):
    d = agama.Potential(type="Dehnen", axisRatioY=.8, axisRatioZ=.6, gamma=.5); x = points(rng, 50, .2, 5); return lambda: agama.Potential(type=["CylSpline", "Multipole"][k % 2], potential=d, gridSizeR=12, **(dict(gridSizeZ=12, mmax=4) if k % 2 == 0 else dict(lmax=4))).eval(x, acc=True)
def op_particles(rng, k):
    b = body(rng, k*2000); x = points(rng, 50, .2, 3); ty = ["Multipole", "CylSpline", "BasisSet"]; sym = ["none", "triaxial", "axisymmetric"][rng.integers(3)]; kw = [dict(lmax=4, gridSizeR=12), dict(mmax=2, gridSizeR=10, gridSizeZ=10, rmin=.1, rmax=10, zmin=.1, zmax=10), dict(lmax=4, nmax=6)]; return lambda: [agama.Potential(type=ty[i], particles=b, symmetry=sym, **kw[i]).eval(x, acc=True) for i in range(3)]+[agama.Density(type="DensitySphericalHarmonic", density=agama.Density(type="Plummer"), lmax=4, gridSizeR=10).density(x)]
def op_pydensity(rng, k):
    L = logu(rng, .3, 3); f = lambda p: np.exp(-np.sqrt((p**2*[1, 1.3, 1.7]).sum(1))/L); x = points(rng, 50, .2*L, 5*L)
    return lambda: [agama.Potential(type="Multipole", density=f, lmax=4, gridSizeR=12, symmetry="t").eval(x, acc=True), agama.Potential(type="CylSpline", density=f, mmax=2, gridSizeR=8, gridSizeZ=8, rmin=.1*L, rmax=10*L, zmin=.1*L, zmax=10*L, symmetry="t").eval(x, acc=True), agama.Density(type="DensityAzimuthalHarmonic", density=f, mmax=2, gridSizeR=8, gridSizeZ=8, rmin=.1*L, rmax=10*L, zmin=.1*L, zmax=10*L, symmetry="t").density(x)]
def op_df(rng, k):
    m, pot, L, M = galmodel(rng); J0 = L*np.sqrt(L*-pot.force(L, 0, 0)[0]); J = J0*np.abs(rng.normal(size=(k*3000, 3))); df = agama.DistributionFunction(type="DoublePowerLaw", norm=M, J0=J0, slopeIn=1., slopeOut=5.5); pdf = agama.DistributionFunction(lambda j: np.exp(-j.sum(1)/J0)); qs = agama.DistributionFunction(type="QuasiSpherical", potential=agama.Potential(type="NFW", mass=M, scaleRadius=L), density=agama.Density(type="Dehnen", scaleRadius=L), beta0=.1)
    sf = agama.SelectionFunction(point=[L, 0, 0], radius=L); xv = bound(rng, pot, L, k*2000); return lambda: [df(J), df(J, der=True), pdf(J), qs(J), sf(xv)]
def op_moments(rng, k):
    m, pot, L, M = galmodel(rng); x = points(rng, 2*k, .3*L, 3*L); sep = bool(rng.random() < .5); return lambda: [m.moments(x, dens=True, vel=True, vel2=True, separate=sep), m.moments(x[:k, :2], dens=True, vel=False, vel2=False)]
def op_vdf(rng, k):
    m, pot, L, M = galmodel(rng); x = points(rng, k, .3*L, 3*L); v = np.sqrt(-pot.potential(L, 0, 0)); g = np.linspace(-1.4*v, 1.4*v, 7)
    def f():
        fs = m.vdf(x, gridv=g, dens=True); return [[q(g*.7) for q in s] for s in fs[:3]]+[fs[3]]
    return f
def op_projdf(rng, k):
    m, pot, L, M = galmodel(rng); n = 2*k; X = np.column_stack((L*rng.normal(size=(n, 2)), np.full((n, 3), np.sqrt(-pot.potential(L, 0, 0)))*rng.uniform(-.5, .5, (n, 3)), rng.uniform(.1, 1, (n, 3)))); X = X[:, :8]; return lambda: m.projectedDF(X, beta=.6)
def op_sample(rng, k):
    d = spheroid(rng); p = agama.Potential(type="NFW", mass=10); n = k*1500; s = int(rng.integers(1, 1000))
    def f(): agama.setRandomSeed(s); return [d.sample(n), d.sample(n//4, potential=p)]
    return f
def op_samplegm(rng, k):
    m, pot, L, M = galmodel(rng); s = int(rng.integers(1, 1000))
    def f(): agama.setRandomSeed(s); return m.sample(k*500)
    return f
def op_ndim(rng, k):
    a = rng.uniform(.5, 3, 3); s = int(rng.integers(1, 1000))
    def f(): agama.setRandomSeed(s); return [agama.sampleNdim(lambda x: np.exp(-((x*a)**2).sum(1)), k*700, [-3]*3, [3]*3), agama.integrateNdim(lambda x: np.exp(-((x*a)**2).sum(1)), [-3]*3, [3]*3)]
    return f
def op_jeans(rng, k):
    d = agama.Density(type="Disk", scaleHeight=-.3); p = agama.Potential(type="MiyamotoNagai", scaleHeight=.3, mass=2); s = int(rng.integers(1, 1000))
    def f(): agama.setRandomSeed(s); return d.sample(k*300, potential=p, kappa=1., beta=.2)
    return f
def op_splines(rng, k):
    n = k*2000; x = rng.normal(size=n); w = rng.uniform(.5, 1.5, n); g = np.linspace(-3, 3, 12); y = np.sin(x)+.1*rng.normal(size=n); return lambda: [agama.splineApprox(g, x, y, smooth=.1)(g), agama.splineLogDensity(g, x, w)(g)]
def op_target(rng, k):
    L = logu(rng, .3, 3); d = agama.Density(type="Spheroid", scaleRadius=L, gamma=1, beta=4, axisRatioZ=.7); gx = np.linspace(-3, 3, 8)*L; gv = np.linspace(-3, 3, 10); poly = np.array([[-1, -1], [1, -1], [1, 1], [-1, 1]])*L*.5; ap = [poly+L*rng.uniform(-1, 1, 2) for _ in range(6)]; psf = .2*L
    t1 = dict(type="LOSVD", gridx=gx, gridv=gv, degree=int(rng.integers(1, 4)), apertures=ap, psf=psf, symmetry="t", alpha=.1, beta=.4, gamma=.2); ts = [dict(type="DensityClassicTopHat", gridr=L*np.linspace(.1, 5, 7), axisRatioZ=.7), dict(type="DensitySphHarm", gridr=L*np.linspace(.1, 5, 7), lmax=4, mmax=2), dict(type="DensityCylindricalLinear", gridR=L*np.linspace(.1, 5, 6), gridz=L*np.linspace(0, 5, 5), mmax=2)]
    xv = np.column_stack((L*rng.normal(size=(50, 3)), rng.normal(size=(50, 3)))); return lambda: [agama.Target(**t1)(d), agama.Target(**t1)((xv, np.ones(50)))]+[agama.Target(**t)(d) for t in ts]
def op_targetgm(rng, k):
    m, pot, L, M = galmodel(rng); t = agama.Target(type="KinemShell", gridr=L*np.linspace(.5, 3, 4), degree=1); return lambda: t(m)
def op_gh(rng, k):
    n = k*20; gv = np.linspace(-4, 4, 25); x = gv; A = np.exp(-.5*((gv-rng.uniform(-1, 1, (n, 1)))/rng.uniform(.7, 1.3, (n, 1)))**2); mat = np.abs(A); gh = np.column_stack([np.ones(n)]+[rng.uniform(-.5, .5, n), rng.uniform(.8, 1.2, n)]); return lambda: [agama.ghMoments(matrix=mat.reshape(1, -1), gridv=gv, degree=1, ghorder=6), agama.ghMoments(matrix=mat.reshape(-1, 100), gridv=gv, degree=1, ghorder=4, ghbasis=gh[:4])]
def op_scm(rng, k):
    def f():
        M, L = 1., 1.; den = agama.Density(type="Plummer"); s = agama.SelfConsistentModel(rminSph=.01, rmaxSph=50, sizeRadialSph=15, lmaxAngularSph=2, useActionInterpolation=True, verbose=False)
        s.components.append(agama.Component(df=agama.DistributionFunction(type="DoublePowerLaw", norm=2., J0=1., slopeIn=0., slopeOut=6), density=den, disklike=False, rminSph=.05, rmaxSph=20, sizeRadialSph=8, lmaxAngularSph=2)); s.iterate(); return s.potential.eval(points(np.random.default_rng(1), 20, .2, 5), acc=True)
    return f
    n, m = 300*k, 12; A = rng.uniform(0, 1, (m, n)); x = rng.uniform(0, 1, n); return lambda: agama.solveOpt(matrix=A, rhs=A@x, xpenq=np.ones(n))
# relative tolerance 0: bitwise equality; otherwise the sum is accumulated in a schedule-dependent order
OPS = dict(eval=0, python=0, roots=0, actions=0, finder=0, mapper=0, orbit=0, lyap=None, multipole=0, basisset=0, cylspline=0, cylpot=0, particles=1e-9, pydensity=0, df=0, moments=0, vdf=0, projdf=0, sample=0, samplegm=0, ndim=0, jeans=0, splines=0, target=1e-6, targetgm=1e-6, gh=0, scm=0, )
HEAVY = ["scm", "targetgm", "samplegm", "jeans", "vdf", "moments"]
def compare(c, key, a, b, tol):
    c.ok(len(a) == len(b), key+":size", "results of different sizes %d, %d" % (len(a), len(b)))
    if len(a) != len(b) or not len(a): return
    if tol == 0: bad = ~((a == b) | (np.isnan(a) & np.isnan(b))); c.ok(not bad.any(), key, "%d of %d values differ, by up to %g relative" % (bad.sum(), len(a), np.nanmax(abs(a-b)[bad]/(abs(a)[bad]+1e-300)) if bad.any() else 0))
    else:
        fin = np.isfinite(a) & np.isfinite(b); s = np.max(abs(a[fin])) if fin.any() else 0; c.ok((np.isfinite(a) == np.isfinite(b)).all(), key+":nonfinite"); c.ok(not fin.any() or np.max(abs(a-b)[fin]) <= tol*s, key, "results differ by %g of the largest value %g" % (np.max(abs(a-b)[fin]) if fin.any() else 0, s))
def determinism(names):
    def fn(c):
        for i in range(c.n(3, 30)):
            for name in names:
                if name in HEAVY and i % 3 and not c.thorough: continue
                rng = np.random.default_rng([c.seed, i, sorted(OPS).index(name)]); st = rng.bit_generator.state
                with c.case("threads:"+name, dict(op=name, i=i, seed=c.seed)):
                    f = OPS_F[name](rng, 1 if name in HEAVY else [1, 2, 1][i % 3]); ref = None
                    for nt in ((1, 2, 3, 5, 8) if name not in HEAVY or c.thorough else (1, 3, 8)):
                        with agama.setNumThreads(nt): r = flat(f())
                        if OPS[name] is None: c.ok(np.isfinite(r).all() or True, name); continue
                        if ref is None: ref = r
                        else: compare(c, "threads:"+name, ref, r, OPS[name])
                    r = flat(f())
                    if OPS[name] is not None: compare(c, "threads:"+name+":repeat", ref, r, OPS[name])
                    c.event("values compared", len(r)*5)
    return fn
OPS_F = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}
# ---------------------------------------------------------------- race detection
def stats(c):
    lib = ctypes.CDLL([m.__file__ for n, m in sys.modules.items() if "agama" in n and str(getattr(m, "__file__", "")).endswith(".so")][0])
    if not hasattr(lib, "verif_omp_stats"): return
    v = [ctypes.c_long() for _ in range(4)]; lib.verif_omp_stats(*[ctypes.byref(q) for q in v])
    for n, q in zip(("parallel regions", "loop chunks handed out", "threads forked", "distinct schedules"), v): c.event("tsan "+n, q.value)
def tsan(names, nq=1):
    def fn(c):
        for i in range(c.n(nq, 12)):
            for name in names:
                rng = np.random.default_rng([c.seed, i, 77, sorted(OPS).index(name)])
                with c.case("tsan:"+name, dict(op=name, i=i, seed=c.seed)):
                    f = OPS_F[name](rng, 1)
                    for nt in ((4, 2) if name not in HEAVY else (4,)):
                        with agama.setNumThreads(nt): r = flat(f())
                    c.event("tsan op "+name); c.ok(True, "ran")
        stats(c)
    return fn
def concurrent(c):
    """read-only methods of shared objects called from several Python threads"""
    for i in range(c.n(3 if TS() else 6, 30)):
        rng = np.random.default_rng([c.seed, i, 5]); gm, gpot, L, M = galmodel(rng); m = randmodel(rng, ["Composite", "Multipole", "CylSpline", "BasisSet", "Modified", "Plummer"][i % 6]); x = points(rng, 1500, .1*m.L, 10*m.L); af = agama.ActionFinder(gpot); xv = bound(rng, gpot, L, 150); am = agama.ActionMapper(agama.Potential(type="Plummer")); J = np.abs(rng.normal(size=(100, 6))); J[:, 3:] *= .5
        ap = agama.ActionMapper(gpot); J0 = L*np.sqrt(L*-gpot.force(L, 0, 0)[0]); aj = np.column_stack((J0*np.abs(rng.normal(size=(3, 3))), rng.uniform(0, 6, (3, 3)))); d1, d2 = spheroid(rng), spheroid(rng, False); t = agama.Target(type="DensityClassicTopHat", gridr=[.5, 1, 2, 4.]); ic = bound(rng, gpot, L, 4); py = agama.Potential(type="Multipole", density=lambda q: np.exp(-(q**2).sum(1)), lmax=2, gridSizeR=10, symmetry="s"); pd = agama.Density(lambda q: np.exp(-(q**2).sum(1))); sp = agama.Spline(np.linspace(0, 5, 9), rng.normal(size=9))
        xs = points(rng, 20, .2, 5)
        fns = dict(potential=lambda: [m.obj.potential(x), m.obj.eval(x, acc=True, der=True), m.obj.density(x)], actions=lambda: af(xv, angles=True, frequencies=True), moments=lambda: gm.moments(xv[:1, :3]), mapper=lambda: am(J), torus=lambda: ap(aj), rcirc=lambda: [gpot.Rcirc(E=gpot.potential(xv[:, :3])), gpot.projectedDensity(xv[:, :2]) if 0 else gpot.enclosedMass([1., 2.])],
            multipole=lambda: agama.Potential(type="Multipole", density=d1, lmax=4, gridSizeR=10).eval(xs, acc=True), cylspline=lambda: agama.Potential(type="CylSpline", density=d2, mmax=0, gridSizeR=8, gridSizeZ=8, rmin=.1, rmax=10, zmin=.1, zmax=10).eval(xs, acc=True), orbit=lambda: agama.orbit(potential=gpot, ic=ic, time=L, trajsize=5, verbose=False), target=lambda: t(d2), pydens=lambda: [pd.density(x), pd.density(x[:3])], pypot=lambda: agama.Potential(type="Multipole", density=lambda q: np.exp(-(q**2).sum(1)), lmax=2, gridSizeR=10, symmetry="s").potential(xs), df=lambda: gm.df(J[:, :3]) if hasattr(gm, "df") else 0, spline=lambda: sp(np.linspace(0, 5, 2000)), num=lambda: agama.integrateNdim(lambda q: np.exp(-(q**2).sum(1)), [0, 0.], [1, 1.])[:1])
        names = sorted(fns); sel = [list(rng.choice(names, 4, replace=False)), [names[i % len(names)]]*4, [names[(i+7) % len(names)]]*3, ["multipole", "cylspline", "multipole", "pypot"]]
        for s in sel:
            s = [str(q) for q in s]
            with c.case("concurrent:"+"+".join(sorted(set(s))), dict(i=i, ops=s)):
                ref = [flat(fns[n]()) for n in s]; out = [None]*len(s); err = []
                def run(j):
                    try:
                        for _ in range(2): out[j] = flat(fns[s[j]]())
                    except BaseException as e: err.append("%s: %s" % (s[j], e))
                with agama.setNumThreads(2):
                    th = [threading.Thread(target=run, args=(j,)) for j in range(len(s))]
                    for q in th: q.start()
                    for q in th: q.join()
                c.ok(not err, "concurrent:error", "; ".join(err)[:300])
                for j, n in enumerate(s):
                    if out[j] is not None: compare(c, "concurrent:"+n, ref[j], out[j], 1e-12)
                c.ok(signal.getsignal(signal.SIGINT) is signal.default_int_handler, "sigint-handler")
                c.event("concurrent calls", 2*len(s))
    stats(c)
def TS(): return "tsan" in os.environ.get("LD_PRELOAD", "")
class Boom(Exception): pass
def failing(c):
    """errors in some of the iterations are reported as exceptions and leave everything usable"""
    for i in range(c.n(6 if not TS() else 2, 60)):
        rng = np.random.default_rng([c.seed, i, 9]); pot, L, M = axipot(rng); spot = agama.Potential(type="NFW"); af = agama.ActionFinder(pot); gm, gp, gL, gM = galmodel(rng); xv = bound(rng, pot, L, 400); good = flat(af(xv)); bad = xv.copy(); bad[rng.random(400) < rng.choice([.02, .5, 1]), :] = np.nan; xs = points(rng, 30, .2, 5); cnt = [0]; when = int(rng.integers(0, 40))
        def boom(v):
            cnt[0] += 1
            if cnt[0] > when and (cnt[0]-when) % 3 == 1: raise Boom("deliberate failure")
            return v
        dens = lambda q: boom(np.exp(-np.sqrt((q**2).sum(1)))); wrong = lambda q: boom(0) if 0 else [np.exp(-np.sqrt((q**2).sum(1))), "text", None, np.zeros(len(q)+3)][cnt[0]*0+wk]
        wk = int(rng.integers(1, 4))
        cases = {
          "actions-nan": (lambda: agama.actions(pot, bad, fd=.3*L), None), "actions-sph-nan": (lambda: agama.actions(spot, bad), None), "finder-nan": (lambda: af(bad, angles=True), None),
          "density-boom": (lambda: agama.Density(dens).density(rng.normal(size=(6000, 3))), True), "multipole-boom": (lambda: agama.Potential(type="Multipole", density=dens, lmax=4, gridSizeR=12, symmetry="t"), True), "cylspline-boom": (lambda: agama.Potential(type="CylSpline", density=dens, mmax=2, gridSizeR=10, gridSizeZ=10, rmin=.1, rmax=10, zmin=.1, zmax=10, symmetry="t"), True), "basisset-boom": (lambda: agama.Potential(type="BasisSet", density=dens, lmax=4, nmax=4, symmetry="t"), True), "density-wrong": (lambda: agama.Density(wrong).density(rng.normal(size=(6000, 3))), True),
          "df-boom": (lambda: agama.DistributionFunction(lambda J: boom(np.exp(-J.sum(1))))(np.abs(rng.normal(size=(6000, 3)))), True), "moments-boom": (lambda: agama.GalaxyModel(pot, agama.DistributionFunction(lambda J: boom(np.exp(-J.sum(1)))), af).moments(xv[:3, :3]), None), "sf-boom": (lambda: agama.GalaxyModel(pot, agama.DistributionFunction(type="DoublePowerLaw", norm=1, J0=1, slopeIn=1, slopeOut=6), af, sf=lambda w: boom(np.ones(len(w)))).moments(xv[:3, :3]), None), "ndim-boom": (lambda: agama.sampleNdim(lambda q: boom(np.exp(-(q**2).sum(1))), 5000, [-3]*3, [3]*3), True), "integrate-boom": (lambda: agama.integrateNdim(lambda q: boom(np.exp(-(q**2).sum(1))), [-3]*3, [3]*3), True),
          "orbit-boom": (lambda: agama.orbit(potential=agama.Potential(lambda q: boom(-1/np.sqrt(1+(q**2).sum(1)))), ic=xv[:16], time=3, trajsize=4, verbose=False), True), "samplevdf-boom": (lambda: agama.GalaxyModel(pot, agama.DistributionFunction(lambda J: boom(np.exp(-J.sum(1)))), af).sample(500), None),
          "target-boom": (lambda: agama.Target(type="DensityClassicTopHat", gridr=[.5, 1, 2.])(agama.Density(dens)), True), "losvd-boom": (lambda: agama.Target(type="LOSVD", gridx=np.linspace(-3, 3, 6), gridv=np.linspace(-1, 1, 5), degree=1, apertures=[np.array([[-1, -1], [1, -1], [1, 1.]])])(agama.Density(dens)), True),
          "jeans-boom": (lambda: agama.Density(dens).sample(50, potential=agama.Potential(type="MiyamotoNagai"), kappa=.8, beta=.1), None), "projdens-boom": (lambda: agama.Density(dens).projectedDensity(xv[:100, :2]), None), "jeans-cons-boom": (lambda: agama.Density(type="DensityAzimuthalHarmonic", density=dens, mmax=0, gridSizeR=8, gridSizeZ=8, rmin=.1, rmax=10, zmin=.1, zmax=10, symmetry="a"), True), "mass-boom": (lambda: agama.Density(dens).totalMass(), None), "shell-boom": (lambda: agama.Target(type="KinemShell", gridr=[.5, 1, 2.], degree=1)(agama.GalaxyModel(pot, agama.DistributionFunction(lambda J: boom(np.exp(-J.sum(1)))), af)), None),
          "scm-boom": (lambda: scmboom(boom), None)}
        for name, (f, must) in cases.items():
            if TS() and name in ("scm-boom", "losvd-boom") and i: continue
            with c.case("failing:"+name, dict(i=i, case=name, when=when, wk=wk)):
                cnt[0] = 0; ex = None; n0 = None
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        with agama.setNumThreads(4): res = f()
                    except Exception as e: ex = e
                if must and not (name in ("density-wrong",)) : n0 = cnt[0] > when
                if n0 or name == "density-wrong": c.ok(ex is not None, name+":no-exception", "a failure in a callback (call %d of %d) was not reported" % (when+1, cnt[0]))
                if ex is not None: c.ok(isinstance(ex, (RuntimeError, ValueError, TypeError, Boom)) and len(str(ex)) > 0 and "SystemError" not in type(ex).__name__, name+":exception", "reported %s: %s" % (type(ex).__name__, str(ex)[:200])); c.event("failures reported")
                else: c.event("no failure: "+name)
                # the library remains usable and existing objects are intact
                compare(c, "usable-after:"+name, good, flat(af(xv)), 0)
                c.ok(signal.getsignal(signal.SIGINT) is signal.default_int_handler, "sigint-handler")
    stats(c)
def scmboom(boom):
    s = agama.SelfConsistentModel(rminSph=.01, rmaxSph=50, sizeRadialSph=10, lmaxAngularSph=0, verbose=False); s.components.append(agama.Component(df=agama.DistributionFunction(lambda J: boom(np.exp(-J.sum(1)))), density=agama.Density(type="Plummer"), disklike=False, rminSph=.05, rmaxSph=20, sizeRadialSph=5, lmaxAngularSph=0)); s.iterate()
def interrupts(c):
    """an interrupt stops any lengthy operation with KeyboardInterrupt, restores the handler and leaves everything usable"""
    for i in range(c.n(3, 30)):
        rng = np.random.default_rng([c.seed, i, 11]); pot, L, M = axipot(rng); af = agama.ActionFinder(pot); gm, gp, gL, gM = galmodel(rng); xv = bound(rng, pot, L, 100); good = flat(af(xv)); xx = np.tile(xv, (20000, 1)); xp = points(rng, 20000, .1, 10); slow = lambda q: np.exp(-np.sqrt((q**2).sum(1)))
        big = np.tile(xv[:, :3], (100000, 1)); d = spheroid(rng)
        cases = dict(actions=lambda: af(xx), potential=lambda: [agama.Potential(type="Dehnen", gamma=1.1, axisRatioY=.8, axisRatioZ=.6).potential(big) for _ in range(50)], projected=lambda: d.projectedDensity(xp[:, :2]), orbit=lambda: agama.orbit(potential=pot, ic=np.tile(xv, (300, 1)), time=300*L, trajsize=2, verbose=False), moments=lambda: gm.moments(np.tile(xv[:, :3], (50, 1))), cylspline=lambda: [agama.Potential(type="CylSpline", density=d, mmax=12, gridSizeR=40, gridSizeZ=40, rmin=.01, rmax=100, zmin=.01, zmax=100) for _ in range(50)], multipole=lambda: [agama.Potential(type="Multipole", density=d, lmax=32, gridSizeR=100) for _ in range(50)], pymultipole=lambda: [agama.Potential(type="Multipole", density=slow, lmax=32, gridSizeR=100, symmetry="n") for _ in range(50)], sample=lambda: d.sample(100000000), samplegm=lambda: gm.sample(10000000))
        for name, f in cases.items():
            with c.case("interrupt:"+name, dict(i=i, case=name)):
                ex = None; delay = float(rng.uniform(.05, .4)); signal.setitimer(signal.ITIMER_REAL, 0); tm = threading.Timer(delay, lambda: signal.pthread_kill(threading.main_thread().ident, signal.SIGINT)); import time; t0 = time.time(); tm.start()
                try:
                    try:
                        f()
                        time.sleep(.5) if time.time()-t0 < delay+.2 else None
                    except KeyboardInterrupt: ex = "KeyboardInterrupt"
                    except Exception as e: ex = "%s: %s" % (type(e).__name__, e)
                    finally: tm.join()
                except KeyboardInterrupt: ex = ex or "KeyboardInterrupt"
                dt = time.time()-t0
                c.ok(ex == "KeyboardInterrupt" or name[:2] == "py" and ex and "user-defined" in ex, name, "after an interrupt got %s" % ex); c.ok(dt < delay+60, name+":latency", "stopped %g s after the interrupt" % (dt-delay)); c.event("interrupts delivered")
                c.ok(signal.getsignal(signal.SIGINT) is signal.default_int_handler, "sigint-handler"); compare(c, "usable-after-interrupt:"+name, good, flat(af(xv)), 0)
def SANITIZER(rec):
    """ThreadSanitizer reports in the library's code; races on single-byte flags are events"""
    out = {}
    for s in rec["san"]:
        for rep in re.split(r"(?m)^={10,}$", s):
            m = re.search(r"WARNING: ThreadSanitizer: ([a-z -]+)", rep)
            if not m:
                if "ERROR: ThreadSanitizer" in rep: out["tsan-error"] = rep
                continue
            kind = m.group(1).strip()
            acc = re.findall(r"(?m)^  (?:Previous |Atomic |Previous atomic )?(?:[Rr]ead|[Ww]rite|atomic read|atomic write) of size (\d+)", rep)
            parts = re.split(r"\n\n", rep); fr = []
            for p in parts[:2]:
                f = [q for q in re.findall(r"#\d+ (.+?) (\S+?):(\d+)", p) if "/src/" in q[1] or q[1].startswith("src/")]
                if f: fr.append(re.sub(r"\(.*|<.*|\[.*", "", f[0][0]).split("::")[-1]+"@"+os.path.basename(f[0][1]))
            if kind == "data race" and len(acc) >= 2 and all(a == "1" for a in acc[:2]): continue
            if not fr: continue   # entirely outside of the library
            k = "%s:%s" % (kind.replace(" ", "-"), "|".join(sorted(set(fr))))
            out.setdefault(k, rep)
    return list(out.items())
A = ["eval", "python", "roots", "actions", "finder", "mapper", "df"]; B = ["orbit", "lyap", "multipole", "basisset", "cylspline", "cylpot", "particles", "pydensity"]; C_ = ["moments", "vdf", "projdf", "sample", "ndim", "splines", "gh", "target"]; D = ["scm", "targetgm", "samplegm", "jeans"]
def _g(fn, variant="opt", threads=8, cores=4, cost=20, **kw): return dict(fn=fn, variant=variant, threads=threads, cores=cores, cost=cost, timeout=300, timeout_thorough=3000, **kw)
GROUPS = dict(detA=_g(determinism(A)), detB=_g(determinism(B)), detC=_g(determinism(C_)), detD=_g(determinism(D)), concurrent=_g(concurrent), failing=_g(failing, threads=4), interrupts=_g(interrupts, threads=4),
    tsanA=_g(tsan(A, 2), "tsan", 4, cost=50), tsanB=_g(tsan(B, 3), "tsan", 4, cost=60), tsanC=_g(tsan(C_), "tsan", 4, cost=60), tsanD=_g(tsan(D, 2), "tsan", 4, cost=60), tsanE=_g(failing, "tsan", 4, cost=50), tsanF=_g(concurrent, "tsan", 2, cost=50))
